#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Plain-text tokenization is lossless",
 "Concatenating the values of all tokens produced from a text, in order, gives back exactly the input bytes, whether the text is read through a reader or a string and whichever way the stream is consumed. No token is ever empty. This holds for any bytes, including control characters and invalid UTF-8.",
 ["inputs"],"every input byte string (every word in it shorter than the 64 KiB token limit)",
 "One test round-trips one paragraph; the other inputs (every Unicode class in every context, invalid bytes, long texts crossing buffer boundaries) are never tried.",
 ["tokenizer.go","tokenstream.go","token.go"],
 [("word segmentation of the buffered input, every segment becomes a token","tokenizer.go: newTokenizer, split, next"),("string collection / writing","tokenstream.go: String, WriteTo")],
 observe=["Tokenize","TokenizeString","TokenStream.String","TokenStream.WriteTo"])
p("C02","Token boundaries depend only on the text, not on how it is delivered",
 "The tokens produced from a reader or a string are exactly the Unicode (UAX #29) word segments of the complete text. They are the same for every way the reader can split the text into reads, including one byte at a time, empty reads, splits inside a character or next to an apostrophe, and end-of-input reported with or after the last bytes.",
 ["inputs","schedules"],"every text and every sequence of reader answers that delivers it",
 "Tests only use strings.Reader with short text, so a single read delivers everything; the boundaries between reads are never exercised.",
 ["tokenizer.go"],[("split function asks for more data when a boundary is not yet decided","tokenizer.go: split, needsLookahead"),("buffered scanner","tokenizer.go: newTokenizer")],
 observe=["Tokenize"])
p("C03","A read failure always surfaces and never fabricates output",
 "If the reader (or the upstream token source) fails at any point, every way of consuming the stream, through any filter or chain of filters, reports that error instead of a clean end. The tokens delivered before the error are a prefix of what the same pipeline produces for the data that was read. After the error, asking again never reports a clean end.",
 ["fault_sequences","inputs"],"every failure position, error value (including errors wrapping EOF), pipeline and consumer",
 "No test uses a failing reader at all.",
 ["tokenizer.go","tokenizer_html.go","tokenstream.go","filters/synonyms/filter.go","filters/sigil/filter.go","filters/contractions/filter.go","filters/mapper/filter.go","filters/stopwords/filter.go"],
 [("errors returned from next() at every layer","tokenstream.go: NewTokenStream wrapper, where.next; each filter's next"),("EOF compared exactly","tokenizer_html.go: next")],
 observe=["Next","Scan/Err","ToSlice","String","WriteTo","Count"])
p("C04","Token classification is exact and history-independent",
 "A token reports the value it was created with; it is 'space' exactly when every character is Unicode white space, 'punctuation' exactly when every character is Unicode punctuation or a newline, carriage return or tab, and 'lemma' exactly when it was created as one. This holds for every string, regardless of which tokens were created before, and for tokens that come out of the tokenizer; only an empty string yields no token.",
 ["inputs","histories"],"every string and every sequence of token creations",
 "Flags are only reached indirectly by a few sentences; pre-built common tokens are never compared with freshly built ones.",
 ["token.go","punct.go"],[("shared table of common tokens","token.go: common, init"),("per-rune classification","token.go: NewToken; punct.go: isPunct")],
 state=[("common","pre-built tokens keyed by value and lemma flag","token.go")],observe=["NewToken","IsPunct","IsSpace","IsLemma"])
p("C05","A token stream is a consistent forward-only iterator",
 "Advancing with either of the two iteration styles, in any mixture, visits each token once and in order; the current token and error always describe the most recent advance. At the end every further advance reports the end again without error, and collecting operations called midway return exactly the remaining tokens and leave the stream at its end.",
 ["histories"],"every sequence of stream operations on every stream",
 "Tests drain a stream once with one style; no mixtures, no calls after the end.",
 ["tokenstream.go"],[("wrapper keeping Next and Scan state consistent","tokenstream.go: NewTokenStream, Scan, Token, Err")],
 state=[("token, err","result of the latest advance","tokenstream.go: TokenStream")],observe=["Next","Scan","Token","Err","ToSlice","String","Count","WriteTo"])
p("C06","Stream selection operators equal their list definitions",
 "Selecting by predicate keeps exactly the tokens the predicate accepts (asked once per token, in order); 'words' keeps exactly the tokens that are neither punctuation nor space; 'lemmas' exactly the lemma tokens; 'distinct' exactly the first token of each value, however many tokens came before. Kept tokens are unchanged and in order, in any chain of these operators, and counting, slicing, stringifying and writing agree on the result.",
 ["inputs","histories"],"every token sequence and every chain of operators",
 "One test of distinct on one sentence; words, lemmas, where and chains are untested.",
 ["tokenstream.go"],[("predicate filter","tokenstream.go: where.next"),("set of seen values","tokenstream.go: Distinct")],observe=["Where","Words","Lemmas","Distinct","Filter","Count"])
p("C07","Writing a stream reports exactly what the destination accepted",
 "Writing a stream to a destination delivers the token values in order and returns the number of bytes the destination accepted. If the destination fails at any point, that error is returned together with the number of bytes accepted so far, those bytes are a prefix of the full output, and nothing more is written.",
 ["fault_sequences","inputs"],"every token sequence and every position (call and byte) at which the destination fails",
 "Writing is only used in a benchmark, with a destination that never fails.",
 ["tokenstream.go"],[("write loop with running total","tokenstream.go: WriteTo")],observe=["WriteTo"])
p("C08","Synonym replacement follows the greedy longest-match rule",
 "Scanning left to right, at each word the synonyms filter replaces the longest matching run of words and spaces by one lemma token with the canonical term (or removes it, if the canonical term is empty), and passes every other token through unchanged. A run matches when its text equals a configured synonym after removing ignored characters and, if configured, letter case; it never crosses punctuation, never ends in a needlessly consumed separator, and spans at most as many words as the longest configured synonym. The result depends only on the configuration and the token sequence.",
 ["inputs","configurations"],"every mapping table (comma-separated synonyms), case and ignore setting, and every token sequence",
 "Two tests, two sentences, two tables; overlapping synonyms, runs at the end of input, adjacent matches, and ignored characters are barely sampled.",
 ["filters/synonyms/filter.go","filters/synonyms/trie/trie.go","tokenqueue/queue.go"],
 [("lookahead buffer and run selection","filters/synonyms/filter.go: next, fill, wordrun"),("trie search preferring longer matches","filters/synonyms/trie/trie.go: SearchCanonical"),("table parsing","filters/synonyms/filter.go: build")],
 state=[("buffer, outgoing","lookahead and pending tokens","filters/synonyms/filter.go: tokens"),("maxWords","longest synonym, in words","filters/synonyms/filter.go: filter")],observe=["synonyms.NewFilter"])
p("C09","Filters mark exactly the tokens they replaced as lemmas",
 "Whatever a bundled filter (synonyms, contractions, ASCII folding, normalization, stemming, Twitter handles and hashtags) puts in place of original tokens is marked as a lemma, and every token it did not change comes out with the same value, classification and lemma mark, in the original order. No token is lost, duplicated or reordered. Stop-word filters only remove, and never alter or mark anything.",
 ["inputs"],"every bundled filter and every token sequence",
 "Tests compare concatenated text only, so marks, token boundaries and classification of outputs are not observed.",
 ["filters/synonyms/filter.go","filters/contractions/filter.go","filters/ascii/filter.go","filters/norm/filter.go","filters/stemmer/filter.go","filters/sigil/filter.go","filters/stopwords/filter.go"],
 [("lemma flag on replacement tokens","each filter: NewToken(..., true)"),("unchanged token returned as is","each filter's next / mapping function")],observe=["IsLemma","Lemmas"])
p("C10","Pipelines stream: bounded lookahead and memory, nothing read in advance",
 "Building a pipeline reads nothing; and each token is delivered after reading only a bounded number of tokens past it (for the synonyms filter, the words of the longest synonym with the spaces between them, or the next punctuation), no matter how much input follows. Reading text consumes at most a fixed-size buffer ahead of the delivered tokens. A token never waits for a buffer to fill: it is delivered once the text that has arrived determines it (for text, once the token after it has arrived; for HTML, the markup after it). Apart from remembering distinct values, memory use does not grow with the length of the input.",
 ["inputs","histories"],"every pipeline of bundled filters, every beginning of input, any length of remaining input",
 "Tests use short inputs and drain them completely, so reading everything first is indistinguishable from streaming.",
 ["filters/synonyms/filter.go","filters/sigil/filter.go","filters/contractions/filter.go","tokenizer.go","tokenstream.go"],
 [("lazy next functions","tokenstream.go, each filter's next"),("lookahead limited by the longest synonym","filters/synonyms/filter.go: fill")],observe=["pulls from the source at each delivered token"])
p("C11","Filters are safe for concurrent use by independent streams",
 "Any number of goroutines may apply the same filter to their own streams at the same time, including its very first use (which builds it lazily) and the filters shipped as package variables; each gets exactly the output it would get alone, without data races, panics or deadlock.",
 ["schedules"],"every interleaving of goroutines sharing a filter",
 "All tests are single-threaded.",
 ["filters/synonyms/filter.go","filters/synonyms/trie/trie.go","token.go","filters/mapper/filter.go","filters/stopwords/filter.go","filters/sigil/filter.go","web/main.go"],
 [("once-only lazy construction","filters/synonyms/filter.go: Filter"),("per-stream state allocated per call","each filter's Filter"),("read-only shared tables","token.go: common; contractions, ascii tables")],
 state=[("config, trie, maxWords","filter state built once","filters/synonyms/filter.go: filter")],observe=["outputs of concurrent streams"])
p("C12","Contractions expand completely and nothing else does",
 "Every supported contraction, in lower, Title or UPPER case and with straight or typographic apostrophe, is expanded into its words in the matching case; in any other mixture of case it expands to the lower-case words. Every other token, including near misses, passes through unchanged, and expansion of one token never affects its neighbours.",
 ["inputs"],"every contraction in every letter case and apostrophe, every near miss, every surrounding token sequence",
 "One sentence with seven contractions is tested out of about 46 bases times case and apostrophe variants.",
 ["filters/contractions/filter.go","filters/contractions/generated.go"],[("lookup, then case-insensitive lookup","filters/contractions/filter.go: next, tryExpansion"),("generated table","filters/contractions/generated.go")],observe=["contractions.Expand"])
p("C13","ASCII folding agrees with the Lucene table on every character",
 "Each character that the Lucene ASCII folding table maps is replaced by its ASCII equivalent, and every other character is kept. The result of folding a string is the concatenation of folding its characters; it reports 'folded' exactly when at least one character was replaced, and the token filter marks exactly those tokens as lemmas and returns others unchanged.",
 ["inputs"],"every Unicode code point, alone and in every position of a string",
 "One test folds about 70 characters and does not check the folded text.",
 ["filters/ascii/fold.go","filters/ascii/filter.go","filters/ascii/ASCIIFoldingFilter.java"],[("character switch","filters/ascii/fold.go: FoldString")],observe=["ascii.FoldString","ascii.Fold"])
p("C14","Normalization filters produce the stated Unicode normalization form",
 "Each of the four normalization filters replaces a token whose text is not in its form by a lemma token with the text in that form, and returns a token already in the form unchanged.",
 ["inputs"],"every form and every token text",
 "No tests exist for this package.",
 ["filters/norm/filter.go"],[("per-token normalization","filters/norm/filter.go: newFilter")],observe=["norm.NFC","norm.NFD","norm.NFKC","norm.NFKD"])
p("C15","Stemmers stem every word and leave everything else alone",
 "Each language's filter replaces a word token by its Snowball stem in that language, marked as a lemma, when the stem differs and is not empty; otherwise the token is returned unchanged. Punctuation and space tokens always pass through, and no token is ever dropped or ends the stream early.",
 ["inputs"],"every language, every token",
 "One test stems two English sentences; five languages are untested, as are words whose stem is empty.",
 ["filters/stemmer/filter.go","filters/mapper/filter.go"],[("stem per word token","filters/stemmer/filter.go: newStemmer")],observe=["stemmer.English","French","Norwegian","Russian","Spanish","Swedish"])
p("C16","Stop-word filters remove exactly the configured words",
 "A stop-word filter removes exactly the tokens whose value equals a configured word (ignoring letter case if so configured) and passes all others through unchanged and in order, for any list of words and any token sequence.",
 ["inputs","configurations"],"every word list, case setting and token sequence",
 "Two sentences are tested.",
 ["filters/stopwords/filter.go"],[("lookup of the (lower-cased) value","filters/stopwords/filter.go: next")],observe=["stopwords.NewFilter"])
p("C17","Sigil filters join a sigil and a legal name only at a word boundary",
 "A token equal to the sigil, at the start of the stream or after a space or punctuation token, and directly followed by a legal name, is joined with that name into one lemma token; all other tokens pass through unchanged and in order. A Twitter handle is 1 to 15 ASCII letters, digits or underscores; a hashtag is letters, numbers and underscores, where a single character must be a letter. This holds however sigils, names and punctuation follow one another.",
 ["inputs","configurations"],"every sigil, legality rule and token sequence",
 "The sigil test is empty; the Twitter example has one handle in one sentence.",
 ["filters/sigil/filter.go","filters/twitter/filter.go"],[("one-token lookahead with queue","filters/sigil/filter.go: next, try"),("legality","filters/twitter/filter.go: legalHandle, legalHashtag")],
 state=[("previous","preceding token","filters/sigil/filter.go: stream")],observe=["sigil.NewFilter","twitter.Handles","twitter.Hashtags"])
p("C18","HTML tokenization is lossless",
 "Concatenating all tokens produced from an HTML document gives back exactly the input bytes: tags with their case, spacing and quoting, attributes, entities, comments, doctypes, script and style contents, and unfinished markup at the end of the input. This holds for any bytes, well-formed or not, and for any way the reader splits them.",
 ["inputs","schedules"],"every byte string as HTML, every split into reads",
 "One small well-formed document is checked for a set of expected tokens; order, completeness, entities, malformed markup are not.",
 ["tokenizer_html.go"],[("raw text of each HTML token","tokenizer_html.go: next")],observe=["TokenizeHTML"])
p("C19","HTML text is tokenized as text; markup, script and style stay whole",
 "Every tag, comment and doctype comes out as one token that counts as punctuation and not as space; the content of a script or style element comes out as one token that is neither; all other text, before, between and after such elements, comes out as the same tokens as when tokenized as plain text.",
 ["inputs","histories"],"every sequence of markup and text",
 "One document with one script and one style block at its end; nothing follows them but white space.",
 ["tokenizer_html.go"],[("tracking of the enclosing script or style element","tokenizer_html.go: next"),("nested plain-text stream for text nodes","tokenizer_html.go: next")],
 state=[("parent","enclosing script/style","tokenizer_html.go: htokenizer"),("ttokens","text node being tokenized","tokenizer_html.go: htokenizer")],observe=["TokenizeHTML"])
p("C20","The token queue is a FIFO queue under every operation sequence",
 "A queue created with some tokens behaves as a first-in first-out list: pushing appends, popping and dropping remove from the front, clearing empties it, and moving one or all tokens to another queue appends them there in order and removes them here. Queues never affect each other or tokens handed out earlier, and length, emptiness and the printed form always describe the current contents.",
 ["histories"],"every sequence of operations on one or more queues",
 "The package has no tests.",
 ["tokenqueue/queue.go"],[("in-place shifting of the backing slice","tokenqueue/queue.go: Drop, Clear, FlushTo")],observe=["Push","Pop","Drop","Clear","PopTo","FlushTo","Len","Any","String"])
p("C21","The command line applies the requested filters in the order given",
 "For every combination of options, the command writes exactly what the library produces for the input (from standard input or a file) with the filters of the command line applied in the order given, a flag written in any accepted form (one or two dashes, with or without =true): the token values, each followed by a line break if lines are requested, or only their count. The language option selects the stemmer, and output goes completely to standard output or the named file, for every input size.",
 ["configurations","inputs"],"every option combination and order, input and output kind, input size",
 "Tests check which filters three argument lists select, never run the pipeline, and never look at output.",
 ["cmd/jargon/main.go"],[("filters collected in argument order","cmd/jargon/main.go: setFilters"),("buffer sizing and source selection","cmd/jargon/main.go: setInput, setReader, setWriter"),("output loop and flush","cmd/jargon/main.go: execute")],observe=["process stdout, output file, exit status"])
p("C22","The command line never reports success when it failed",
 "If input cannot be opened or read, output cannot be created or written (at any point of the output), a flag or the language to stem in is unknown, or both kinds of input are given, the command exits with a non-zero status and a message on standard error. Otherwise it exits with status zero, prints nothing on standard error (except usage when there is no input), and everything it produced has been written.",
 ["fault_sequences","configurations"],"every failure kind and point, under every output mode",
 "Tests check the error of opening a missing file and of an unknown language only; write failures are never injected.",
 ["cmd/jargon/main.go"],[("check after each stage","cmd/jargon/main.go: main"),("write and flush errors returned","cmd/jargon/main.go: execute")],observe=["exit status, stderr"])
p("C23","The web service marks up known terms, escapes all else, and reports errors",
 "Posting text or HTML to the service returns it with every recognized term replaced by its canonical term inside a lemma span, and everything else preserved and HTML-escaped, so that the only markup in the response is those spans. If the request body cannot be read completely the status is 500; unknown paths give 404; preflight requests give an empty success; all carry the cross-origin header. Concurrent requests do not affect each other.",
 ["inputs","fault_sequences","schedules"],"every body, route, method, truncation point and set of concurrent requests",
 "One request with one body is checked for two substrings.",
 ["web/main.go"],[("per-token templates with escaping","web/main.go: jargonHandler"),("routing and cross-origin headers","web/main.go: mainHandler, cors")],observe=["HTTP status, headers, body"])
p("C24","Every term of the shipped dictionaries is recognized",
 "Each term in the shipped Stack Overflow and NBA dictionaries, written as listed, in any letter case, alone or surrounded by other text, and with the spaces inside it left out or doubled, is replaced by its canonical term as one lemma token.",
 ["inputs"],"every dictionary term (about 4600), every case and spacing variant, every context",
 "Eight phrases are tested for Stack Overflow, none for NBA.",
 ["filters/stackoverflow/generated.go","filters/stackoverflow/filter.go","filters/nba/generated.go","filters/nba/filter.go","filters/synonyms/filter.go"],
 [("dictionaries","generated.go"),("case-insensitive, separator-insensitive trie","filters/synonyms/trie/trie.go")],observe=["stackoverflow.Tags","nba.CurrentPlayers"])
p("C25","One filter value serves any number of streams independently",
 "A filter or selection can be applied to any number of streams, whose tokens are then consumed in any interleaving, with some streams abandoned midway or failing; each stream still yields exactly what it would yield alone.",
 ["histories"],"every interleaving of advances on several streams sharing a filter, and every number of prior uses",
 "Tests use each filter value on one stream at a time.",
 ["filters/synonyms/filter.go","filters/sigil/filter.go","filters/contractions/filter.go","filters/mapper/filter.go","filters/stopwords/filter.go","tokenstream.go"],
 [("state allocated per stream","each filter's Filter"),("immutable filter after construction","filters/synonyms/filter.go: build")],observe=["outputs of interleaved streams"])
p("C26","Term lookup returns the longest stored match and its extent",
 "Looking up a token sequence in the term index finds the stored term whose text, ignoring the configured characters and letter case, equals that of some leading tokens; it prefers the longest such text, reports its canonical value and the smallest number of leading tokens that make it up, and reports 'not found' when there is none. Looking up never changes the index, and storing a term again replaces its canonical value.",
 ["inputs","histories"],"every sequence of additions, every case and ignore setting, every looked-up token sequence",
 "The package has no tests of its own.",
 ["filters/synonyms/trie/trie.go"],[("rune trie walk","filters/synonyms/trie/trie.go: Add, SearchCanonical")],observe=["trie.New","Add","SearchCanonical"])
p("C27","A synonyms filter that cannot be built reports the error on every use",
 "If the configured synonyms cannot be processed, every stream the filter is applied to, on the first and on every later use, reports that error on its first advance; it never panics, hangs, or silently passes tokens through. A filter that can be built never reports such an error.",
 ["histories","configurations"],"every configuration, every sequence of uses",
 "The failing construction path is not tested.",
 ["filters/synonyms/filter.go"],[("remembered construction error","filters/synonyms/filter.go: Filter")],observe=["error of the filtered streams"])
p("C28","A mapping filter applies all its functions, in order, once per token",
 "A filter built from mapping functions yields, for each token in order, the result of applying its functions one after the other in the order given, each called exactly once per token; with no functions it passes tokens through.",
 ["inputs","configurations"],"every list of functions and token sequence",
 "One test with one function.",
 ["filters/mapper/filter.go"],[("function loop","filters/mapper/filter.go: next")],observe=["mapper.NewFilter"])
p("C29","Filters compose: a chain equals its stages run one after the other",
 "Applying several filters to a stream, in one call or in successive calls, yields exactly what is obtained by completely collecting the output of each stage and feeding it to the next, in the order given; applying no filters changes nothing.",
 ["inputs","configurations"],"every chain of filters and selections and every token sequence",
 "No test chains filters.",
 ["tokenstream.go","filters/synonyms/filter.go","filters/sigil/filter.go","filters/contractions/filter.go"],[("left-to-right application","tokenstream.go: Filter"),("pull-based stages","each filter's next")],observe=["TokenStream.Filter"])
p("C30","Equal configuration and input always give equal output",
 "What a tokenizer, a filter, a chain of filters, the command-line program or the web service yields is determined by its configuration and input alone: it is the same on every run, in every process and environment, whatever was done before. In particular, where entries of a synonyms mapping (or a stop-word list) are equivalent to each other, such as by letter case or by ignored characters, which of them takes effect does not depend on the order in which the mapping happens to be iterated.",
 ["configurations","inputs","histories"],"every configuration, every input, every iteration order of the maps involved, every process",
 "Go randomizes the iteration over maps, so a test passes or fails by chance; the tests use mappings without conflicting entries, in a single process.",
 ["filters/synonyms/filter.go","filters/contractions/filter.go","filters/stopwords/filter.go","cmd/jargon/main.go","web/main.go"],
 [("mapping entries added in sorted order","filters/synonyms/filter.go: build"),("flags applied in the order of the arguments","cmd/jargon/main.go: setFilters")],
 state=[("mappings","caller's map from synonyms to canonical terms","filters/synonyms/filter.go: config")],observe=["token streams, output of the programs"])
p("C31","Nothing given to the library, or obtained from it, changes afterwards",
 "A token keeps its value and kinds for good, whatever is done later with the stream, the filters or other streams: tokens obtained from a stream, tokens that a source supplied, and the strings obtained from them. The library never modifies what a caller passes in: mappings, word lists, ignored characters, lists of functions, slices of tokens, and the memory a reader reads from. What it hands out belongs to the caller: tokens do not depend on the reader's memory any more, and changing a collected slice has no effect on the stream, the filter or other streams.",
 ["histories","inputs","configurations"],"every history of uses, every input, every configuration",
 "Tests look at each token once, right after it was produced, and never look at their own arguments again.",
 ["token.go","tokenizer.go","tokenstream.go","tokenqueue/queue.go","filters/stopwords/filter.go","filters/synonyms/filter.go","filters/synonyms/trie/trie.go","filters/mapper/filter.go"],
 [("tokens copy the text","tokenizer.go: next"),("unexported fields, set at creation only","token.go: Token"),("slice of the caller copied","tokenqueue/queue.go: New")],
 state=[("common","shared tokens","token.go")],observe=["Token.String, IsPunct, IsSpace, IsLemma at later times","the caller's maps, slices and buffers"])
p("C32","A dictionary generator writes the complete dictionary, or fails and writes none",
 "Each dictionary generator either exits with status 0, having written a Go file of the right package with every usable term its source supplied under its canonical term and nothing else, or exits with a non-zero status and a message, leaving an existing dictionary file as it was; errors of the network or the service, a failure status, an answer that is cut short or not what was asked for, and a file that cannot be created or written, are failures. The Stack Overflow generator asks for the tags page by page until there are no more or it has the 2000 most popular, waits between pages as long as the service tells it to (failing if that is more than 10 seconds), and maps each tag and its synonyms, dashes as spaces, to the tag's name, leaving out moderator-only tags and the hard-coded exceptions. The NBA generator turns each 'last, first' of the rosters into 'first last' with its ASCII-folded form as a synonym; that of the contractions reproduces the shipped table: each contraction in lower, upper and title case, with straight and with curly apostrophe.",
 ["inputs","fault_sequences"],"every content of every page, every number of pages, every failure of the service, the network or the file at any request",
 "The programs have no tests, and depend on remote services.",
 ["filters/stackoverflow/generate/main.go","filters/nba/generate/main.go","filters/contractions/generate/main.go"],
 [("loop over pages, until there are no more","filters/stackoverflow/generate/main.go: writeDictionary"),("the file is created only when everything has been fetched and formatted","filters/*/generate/main.go: write"),("errors of the service","filters/stackoverflow/generate/main.go: fetchTags")],observe=["exit status","standard error","generated.go","requests made"])
p("C33","Work and memory grow in proportion to the input",
 "The processor time, and the memory allocated, that it takes to tokenize, filter, select from, collect, count or write a text grow at most in proportion to its length, whatever the text contains, however it arrives, and with any filter or chain of filters; the length of the longest configured term, and while reading that of a single token, may be a factor. A use of a filter costs the same however often it was used before, and however many terms its dictionary or list has; these are processed once, in proportion to their length. The same holds for the command-line program and the web service, also for the number of requests.",
 ["inputs","histories","configurations"],"every text and token sequence of any length, every filter, consumer and option, every number of earlier uses",
 "The tests use single sentences, on which quadratic work does not show.",
 ["tokenizer.go","html.go","tokenstream.go","tokenqueue/queue.go","filters/synonyms/filter.go","filters/synonyms/trie/trie.go","filters/sigil/filter.go","filters/contractions/filter.go","filters/stopwords/filter.go","cmd/jargon/main.go","web/main.go"],
 [("lookup in a trie, in time independent of the size of the dictionary (README: O(n))","filters/synonyms/trie/trie.go: SearchCanonical"),("bounded look-ahead queue","filters/synonyms/filter.go, tokenqueue/queue.go"),("one pass over the stream","tokenstream.go")],observe=["statements executed (counted in instrumented copies)","bytes allocated","processor time"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
