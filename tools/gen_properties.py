#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that edits stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

NS="normalizedstring/normalizedstring.go"
p("C01","Edits of a normalized string produce exactly the specified text",
  "For any well-formed text and any sequence of edits (filter, map, upper/lower-casing, left/right trimming, prepend, append, pattern replacement, rune-change transforms of the whole string or of a range), the normalized text after every edit is exactly the text obtained by applying that edit to a plain string, including multi-byte characters, empty strings and edits at the edges. Length and emptiness queries agree with that text, and no edit panics. Prepending or appending to a text that has become empty leaves it empty, and an edit of a range of the original that has no place left in the text changes nothing.",
  ["inputs","histories"],"all valid UTF-8 strings x all finite sequences of edit operations with valid arguments",
  "Tests apply one edit to about twenty short, almost only ASCII strings; multi-byte characters in removed prefixes, before an append, or after several edits are never reached.",
  [NS],[("TransformRange rebuilds text from rune changes",NS),("Filter/Map/Trim/Prepend/Append/Replace build rune changes",NS)],["Get()","Len()","IsEmpty()"],
  [("normalized","current text",NS)])
p("C02","Alignments always lead every byte back to the original text it came from",
  "After any sequence of edits and slices, every byte of the normalized text maps to a range of the original text such that: a character that survived, was mapped or was expanded maps exactly to the original character(s) it came from; an inserted character shares the mapping of the character before it (an empty range at the start of the text when there is none; a prepended prefix shares that of the first character); all bytes of one character share one mapping; and mappings stay inside the original, on character boundaries, in non-decreasing order.",
  ["inputs","histories"],"all valid UTF-8 strings x all finite sequences of edits and slices",
  "Tests compare alignments after a single edit of a few strings; only a history over mixed-width characters exposes byte/rune confusion or drift of the offsets.",
  [NS],[("alignment bookkeeping in TransformRange",NS),("alignmentsFromString",NS)],["CoerceRangeToOriginal(NewNormalizedRange(i,i+1)) for every byte i","GetOriginalRange"],
  [("alignments","per normalized byte, the range of the original it stands for",NS)])
p("C03","Editing never alters the original, nor any other normalized string",
  "Whatever edits are applied to a normalized string, its original text and its original offsets never change; and editing a string never changes the text, alignments, original or offsets of any other normalized string derived from it by slicing or splitting, nor of its parent or siblings.",
  ["inputs","histories"],"all histories over a growing family of strings related by slice/split, edited in any order",
  "Tests never edit a slice and then look at its parent or sibling; shared backing arrays only show in such multi-object histories.",
  [NS],[("fresh alignment slices on each transform and slice",NS)],["Get, GetOriginal, OriginalOffsets, CoerceRangeToOriginal of every live object after every step"],
  [("original / originalShift","immutable original text and its position in the whole input",NS)])
p("C04","Range conversion between original and normalized text is exact both ways",
  "For any edited string, a non-empty in-bounds normalized range converts to the smallest original range covering all its bytes; an original range converts to exactly the normalized bytes that come from characters lying wholly inside it, or, when all of those were removed, to an empty range at their place or a failure report. Text retrieval by range returns exactly the substring at the converted range, and reversed requests and requests out of the range of their own text are reported as failures by retrieval; no request crashes or yields anything but existing text.",
  ["inputs","histories"],"all strings, all edit histories, all pairs of range ends in both referentials",
  "Tests check about a dozen hand-picked ranges on three strings; correctness for each pair of ends and each edit history needs a model.",
  [NS,"normalizedstring/range.go"],[("CoerceRangeToNormalized / CoerceRangeToOriginal","%s"%NS),("GetRange / GetOriginalRange",NS)],["CoerceRangeTo*","GetRange","GetOriginalRange"])
p("C05","Slices are faithful windows and compose",
  "A slice by any non-empty range on character boundaries (in either referential) holds exactly the corresponding normalized text and original text, reports offsets locating its original text inside the whole input even through nested slices, and maps every one of its bytes to the same place in the whole input as its parent did; ranges off character boundaries or out of range are refused.",
  ["inputs","histories"],"all strings, edit histories, nested slices of slices, ranges in both referentials",
  "Slicing is only tested through splits of unedited ASCII strings; nested slices with shifted originals are not tested at all.",
  [NS,"strutils/strutils.go"],[("Slice, originalShift accumulation, alignment re-basing",NS),("rangeIsValid / IsRuneBoundary",NS)],["Slice","OriginalOffsets","GetOriginal"])
p("C06","Splitting follows the documented delimiter behaviours and loses nothing",
  "For any pattern and text, splitting yields, for each of the five delimiter behaviours, exactly the documented pieces: removed drops the delimiters only; isolated keeps each delimiter alone; merged-with-previous / merged-with-next attach one delimiter to its neighbour; contiguous groups adjacent delimiters. An empty match is a delimiter like any other, and an empty text is a single empty piece. Concatenating the pieces gives back the text (minus delimiters when removed), in order, and each non-empty piece carries the original text and offsets it came from.",
  ["inputs"],"all strings (also edited ones) x all partitions produced by patterns x five behaviours",
  "One ASCII string with one delimiter is tested; leading, trailing and runs of delimiters, empty matches, and edited multi-byte text are not.",
  [NS,"splitpattern/splitpattern.go"],[("Split",NS)],["Split results: Get, GetOriginal, OriginalOffsets"])
p("C07","The original-to-normalized alignment table inverts the alignments",
  "After any history of edits and slices the recalculated table has one entry for every byte of the original; the entry of a surviving or replaced character spans exactly the normalized bytes aligned to it (including text inserted with it), and the entry of a removed byte is an empty range at the place where it was removed. Recalculation never panics and changes nothing.",
  ["inputs","histories"],"all strings x all edit/slice histories",
  "Tests compare this table after single edits only, and never when text was trimmed to nothing or sliced.",
  [NS],[("OriginalAlignments",NS)],["OriginalAlignments()"])
sp=["splitpattern/regexp.go","splitpattern/regexp2.go","splitpattern/func.go","splitpattern/rune.go","splitpattern/string.go","splitpattern/invertedpattern.go"]
p("C08","Every split pattern partitions the text and flags exactly its matches",
  "For any text, every pattern kind (rune, predicate, literal string, standard regexp, regexp2, and inversion of any of them) returns contiguous ordered byte ranges on character boundaries covering the text exactly; the ranges flagged as matches are exactly the successive leftmost non-overlapping matches of the pattern (for a right-to-left regexp2, the successive matches it finds from the end), the stretch between two matches is one unflagged range (an empty text gives one empty range), an empty literal matches nothing, and inverting flips every flag without moving a boundary. Matching is repeatable: the same pattern object gives the same answer each time.",
  ["inputs"],"all strings x all patterns of each kind, including ones that match the empty string",
  "Each kind is tested with a handful of ASCII strings; byte-versus-rune offsets and empty matches after multi-byte text are not reached.",
  sp+["splitpattern/splitpattern.go"],[("FindMatches of each kind",", ".join(sp))],["FindMatches"])
p("C09","Lowercase, strip and sequence normalizers mean what they say",
  "For any text and any prior edits: lowercase replaces each character by its lower case, character by character; strip removes exactly the maximal run of Unicode white space at the requested side(s) and nothing else; a sequence equals running its members one after another on the same string and stops at the first error, returning that error. Offsets of remaining characters still lead to the original characters.",
  ["inputs","configurations","fault_sequences"],"all strings, all four strip configurations, all (nested) sequences, failing members at any position",
  "Tests use one or two fixed strings with ASCII white space; multi-byte white space and every code point's case mapping are not covered.",
  ["normalizers/lowercasenormalizer/lowercasenormalizer.go","normalizers/stripnormalizer/stripnormalizer.go","normalizers/sequencenormalizer/sequencenormalizer.go",NS],
  [("ToLower","%s"%NS),("TrimLeftRight",NS),("SequenceNormalizer.Normalize","normalizers/sequencenormalizer/sequencenormalizer.go")],["Normalize + Get + alignments"])
p("C10","BERT normalization applies each enabled step to every character, in order",
  "For every text and each of the 16 option sets: cleaning drops NUL, U+FFFD and control/format/unassigned/private-use characters (except tab, newline, carriage return) and turns every white-space character into a plain space; Chinese handling surrounds exactly the characters of the CJK ideograph blocks (Unified Ideographs, Extensions A to E, Compatibility Ideographs and their Supplement) with spaces; accent stripping drops exactly the non-spacing marks; lower-casing maps each character. Disabled steps change nothing, the steps apply in that order, and every resulting character remains aligned to the original character it came from.",
  ["inputs","configurations"],"every Unicode code point in context and random texts x 16 option sets",
  "One short string is tested per option; block boundaries and multi-byte removed characters are not reached.",
  ["normalizers/bertnormalizer/bertnormalizer.go",NS],[("cleanText, handleChineseChars, stripAccents","normalizers/bertnormalizer/bertnormalizer.go")],["Normalize + Get + alignments"])
pts=["pretokenizers/whitespacepretokenizer/whitespacepretokenizer.go","pretokenizers/whitespacesplitpretokenizer/whitespacesplitpretokenizer.go","pretokenizers/runedelimiterpretokenizer/runedelimiterpretokenizer.go","pretokenizers/bertpretokenizer/bertpretokenizer.go"]
p("C11","Word-level pre-tokenizers cut exactly at their delimiters with true offsets",
  "For any text: white-space splitting yields exactly the maximal runs free of Unicode white space; the word pre-tokenizer yields exactly the maximal runs of word characters and of non-word non-space characters (or the matches of its custom regexp); the delimiter pre-tokenizer the non-empty stretches between delimiters; the BERT one the white-space-free runs cut around each Unicode punctuation character. No piece is empty, pieces are in order and do not overlap, and the original text at each piece's reported offsets is that piece.",
  ["inputs","configurations"],"all texts (raw, pre-normalized, or already split), all delimiters, default and custom word regexps",
  "Tests use a few English phrases; Unicode white space, multi-byte delimiters, already-split or normalized input are not covered.",
  pts+["pretokenizedstring/pretokenizedstring.go"],[("PreTokenize",", ".join(pts))],["GetOriginalByteSplits","GetNormalizedByteSplits"])
bl="pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go"
p("C12","Byte-level pre-tokenization is lossless and splits by the GPT-2 rule",
  "For any text and configuration, every piece consists only of characters of the 256-character byte alphabet, and decoding the concatenated pieces through that one-to-one alphabet (printable Latin-1 stands for itself, the remaining bytes take successive characters from U+0100) gives back exactly the bytes of the text, preceded by one space iff prefixing is enabled and the text is non-empty and does not start with white space. Pieces are cut exactly where the configured regexp cuts (by default: contractions, optional space plus letters / numbers / other, white space leaving the last blank to the next word), and each piece's offsets select its original text.",
  ["inputs","configurations"],"all texts, each of the 256 bytes and every code point, both prefix settings, default and custom regexps, raw or already split input",
  "A few English sentences and one 3-byte symbol are tested; the alphabet is never checked and 4-byte characters, contractions and white-space runs barely.",
  [bl],[("byteToRune table",bl),("PreTokenize",bl)],["GetOriginalByteSplits","GetNormalizedByteSplits"])
ms="pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go"
p("C13","Metaspace pre-tokenization is reversible and starts every word with the mark",
  "For any text and mark character, pre-tokenization replaces each space (U+0020) by the mark, adds one mark in front iff prefixing is enabled and the text is non-empty and starts with neither the mark nor white space, and changes nothing else; every piece but the first starts with the mark and no piece has a mark elsewhere than at its start, so the pieces concatenate to the marked text. Each piece's offsets select the original characters it stands for.",
  ["inputs","configurations"],"all texts, marks of every UTF-8 width, both prefix settings, raw or already split input",
  "Two English phrases with the default mark are tested; leading or trailing spaces, texts already containing the mark and other marks are not.",
  [ms,NS],[("PreTokenize",ms),("Replace/Prepend/Split MergedWithNext",NS)],["GetOriginalByteSplits","GetNormalizedByteSplits"])
pz="pretokenizedstring/pretokenizedstring.go"
p("C14","A pre-tokenized string stays consistent under any history of operations",
  "Under any sequence of split, normalize and tokenize operations: splits that already have tokens are never split, normalized or tokenized again; other splits are passed to the operation in order (with their index when splitting) and replaced in place by what it returns, minus empty pieces; original byte splits report each split's text, original offsets and tokens, and normalized byte splits report contiguous offsets from 0. Views do not alter the state.",
  ["inputs","histories"],"all histories of split/normalize/tokenize with arbitrary splitting, normalizing and tokenizing functions, including ones attaching tokens to some pieces",
  "This package has no tests of its own; pre-tokenizer tests only use one split on untokenized text.",
  [pz,"pretokenizedstring/split.go"],[("Split/Normalize/Tokenize",pz),("GetOriginalByteSplits/GetNormalizedByteSplits",pz)],["Splits()","Get*ByteSplits()"],
  [("splits","ordered splits with optional tokens",pz)])
p("C15","Encodings report each token with its true original offsets, word and type",
  "Turning a fully tokenized string into an encoding lists every token of every split in order, with all parallel arrays of equal length: the token's id and text, the position in the original input of the text the token covers (through all normalizations and nested splits), the word index (the given one, or the split's position), the type id, special mask 0 and attention mask 1. It fails if some split is untokenized, yields an empty encoding when there are no splits, and leaves its input unchanged. An encoding put together from lists holds each list in its place.",
  ["inputs","histories"],"all texts, normalization/split histories, arbitrary in-range token sets, word and type ids",
  "No test builds an encoding.",
  [pz,"encodings/encodings.go"],[("IntoEncoding",pz),("EncodingFromEncodableTokens","encodings/encodings.go")],["IntoEncoding","Encoding fields, Len, IsEmpty"])
wp="models/wordpiecemodel/wordpiecemodel.go"
p("C16","WordPiece is greedy longest-match-first with full coverage or one unknown",
  "For any vocabulary, prefix, limit and word, WordPiece returns the pieces found by repeatedly taking the longest vocabulary entry matching at the current position (with the continuation prefix after the first), whose byte offsets tile the word; if at some position nothing matches, or the word has more characters than the limit, it returns exactly one unknown token covering the whole word; it errors iff the unknown token is needed and absent from the vocabulary. An empty word yields no tokens.",
  ["inputs","configurations"],"all vocabularies, prefixes, limits and words over mixed-width characters",
  "Six ASCII words against one vocabulary are tested, so that no multi-byte character is ever matched.",
  [wp],[("Tokenize",wp)],["Tokenize"])
bm="models/bpemodel/bpemodel.go"; wd="models/bpemodel/word.go"; wm="models/bpemodel/wordmerge.go"
p("C17","BPE applies merges by rank, leftmost first, to a fixed point",
  "Without dropout, for any vocabulary and merge table, the tokens of a word are exactly those obtained by starting from its characters and repeatedly merging the adjacent pair with the lowest rank (leftmost among equals) until none is mergeable. A merged word may be added to and merged again, by the same or other merges, like a new word of the same symbols, and its symbols stay linked to their neighbours. Each token's id and value agree with the vocabulary, and the tokens' byte offsets tile the word.",
  ["inputs","configurations"],"all words and all consistent merge tables, incl. repeated characters, overlapping and competing merges and multi-byte characters",
  "One word with one table is tested; ties, overlapping pairs and expired queue entries are reached only by particular combinations.",
  [bm,wd,wm],[("Word.MergeAll with a heap of candidate merges and stale-entry check",wd),("WordMergeHeap order",wm),("wordToTokens",bm)],["BPEModel.Tokenize","Word.MergeAll"])
p("C18","BPE handles unknown characters, subword prefix and word suffix as configured",
  "Each character is looked up with the continuing-subword prefix added iff it is not the first of the word and the end-of-word suffix iff it is the last. Characters not found become the unknown token, one per character, or one per maximal run when fusing is enabled, covering exactly their bytes; without an unknown token they are left out. If the configured unknown token is needed but not in the vocabulary, tokenization fails with the documented error; an empty word gives no tokens.",
  ["inputs","configurations"],"all words mixing known and unknown characters x prefix/suffix/unknown/fusion settings",
  "No existing test sets a prefix, a suffix, an unknown token or fusion.",
  [bm],[("mergeWord",bm)],["BPEModel.Tokenize"])
p("C19","BPE dropout only skips merges and never corrupts the segmentation",
  "With any dropout probability, each token is obtainable by allowed merges of consecutive characters, token offsets tile the word, and ids agree with values; probability 1 performs no merge at all, a probability of 0 performs all of them, and each merge on offer (by rank) is skipped with the given probability and offered again after the next one applied. Tokenization always terminates.",
  ["inputs","configurations","histories"],"all words, merge tables and dropout values; all outcomes of the random draws (sampled)",
  "The test checks only the number of tokens of one word.",
  [wd,bm],[("dropout skip list in MergeAll",wd)],["BPEModel.Tokenize","Word.MergeAll"])
p("C20","Components are reusable: results depend only on the input and configuration",
  "Pattern, normalizer, pre-tokenizer and (dropout-free) model objects give for each input the same result as a fresh object, whatever was processed before, in whatever order, whatever the cache capacity, whatever callers do with returned values, and when shared by concurrent goroutines (no data race). Using a model never changes its vocabulary or merges.",
  ["histories","schedules","configurations"],"all sequences of calls on shared objects incl. repeated, failing and more distinct words than the cache holds; concurrent callers",
  "Tests use each object once or twice and from one goroutine.",
  [bm,"models/bpemodel/wordcache.go",wp]+pts+[bl,ms],[("tokenizeWithCache / WordCache","models/bpemodel/wordcache.go"),("stateless components","pretokenizers, normalizers")],["results of shared versus fresh objects; race detector"])
vc="vocabulary/vocabulary.go"
p("C21","A vocabulary is a consistent two-way mapping with stable ids",
  "Under any sequence of additions, starting empty or from a JSON file with distinct ids: re-adding a term changes nothing; a new term gets the current size as its id (the next free one should that be taken); lookup by term and by id are inverse; absent terms and ids are reported absent; existing ids never change. Loading a JSON file gives exactly its associations; an unreadable or malformed file, or one with a value that is not an integer id (null included), gives an error.",
  ["inputs","histories","fault_sequences"],"all sequences of add/lookup over arbitrary terms; all JSON objects of distinct integer ids; truncated or malformed files",
  "Adding a term is never tested directly, and only one three-entry file is loaded.",
  [vc],[("AddTerm","%s"%vc),("FromJSONFile",vc)],["GetID","GetString","Size"],[("termToID/idToTerm","the two directions",vc)])
mm="models/bpemodel/mergemap.go"
p("C22","Merge files load with the right ranks and ids, or fail naming the line",
  "Loading any merge file skips version lines, ranks merges by their order among merge lines from 0, and maps each pair to the vocabulary id of the left term followed by the right term without its first prefix-length bytes; a later duplicate pair replaces the earlier. Lines end with LF or CR LF (any other CR belongs to its term) and may have any length. A missing file, a line that is not two terms separated by one space, or a term (left, right or merged) absent from the vocabulary gives an error naming the 1-based line, and never a panic or a partial table.",
  ["inputs","fault_sequences"],"all well-formed merge files and vocabularies, prefix lengths, and every kind of defect at every line",
  "One three-line file is loaded, without any malformed line.",
  [mm],[("MergeMapFromFile",mm)],["MergeMapFromFile","MergeMap.Get"])
su="strutils/strutils.go"
p("C23","Rune-boundary tests and byte-to-rune offset conversion are exact",
  "An index is reported as a rune boundary iff it is between 0 and the length and does not fall inside a character. For any text and any range of byte offsets in it (0 <= start <= end <= length), conversion returns the positions counted in characters of the characters at those offsets, so that taking the characters in the converted range gives the same text when the byte range is on character boundaries.",
  ["inputs"],"all well-formed strings and all index pairs",
  "Boundary tests check six indexes of one string; the converter is not tested at all.",
  [su],[("IsRuneBoundary",su),("BytesToRuneOffsetConverter",su)],["IsRuneBoundary","Convert"])
p("C24","End to end, every token points at the original text it encodes",
  "For any text and any pipeline of normalizers, pre-tokenizers and a model, the resulting encoding equals the composition of the documented stages, and the original text at each token's offsets is exactly the text that token was produced from: normalizing it again gives the token's (unprefixed, decoded) text for character-wise pipelines, token ranges never run backwards and always lie within the input.",
  ["inputs","configurations"],"all texts x combinations of every normalizer, pre-tokenizer and model",
  "No test combines stages.",
  [pz,NS,bm,wp,"encodings/encodings.go"]+pts+[bl,ms],[("offset composition through Slice, CoerceRangeToOriginal and IntoEncoding",pz)],["IntoEncoding of full pipelines"])
p("C25","Ill-formed UTF-8 is handled or rejected cleanly",
  "For any byte string, well-formed or not, wrapping, editing, splitting, pre-tokenizing, tokenizing and encoding it either succeed or return an error: they never panic or hang, each ill-formed byte counts as one character, patterns still partition the text, and every reported offset lies within the input with start not after end. Without a prefix, byte-level pre-tokenization preserves arbitrary bytes exactly.",
  ["inputs","configurations"],"all byte strings x all components",
  "Tests contain no ill-formed input.",
  [NS,"splitpattern/func.go","splitpattern/regexp2.go",bl,bm,wp,su],[("character widths taken from the text",NS)],["all public operations on arbitrary bytes"])
p("C26","Errors of injected components surface unchanged and corrupt nothing",
  "When a split function, pattern, normalization or tokenization function fails at any point of a history, the operation returns that very error; a failed split leaves the list of splits as it was, a failed tokenization leaves the splits it did not complete without tokens, a failed replace or split leaves its string unchanged, and repeating a failed split, replace or tokenization with a working component gives the same final result as if it had never failed.",
  ["fault_sequences","histories"],"every call index at which a component fails x all histories",
  "Only one test injects an error, into a sequence of normalizers.",
  [pz,NS,"splitpattern/invertedpattern.go"],[("early return before replacing splits",pz),("Split/Replace return the pattern's error first",NS)],["returned error, state after failure and after retry"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False)+"\n")
print(len(P))
