#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": ["src/" + f if not f.startswith(("doc", "README", "configs")) else f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

# ------------------------------------------------------------------ cache
p("C01", "A cache entry is always complete, whatever fails or is interrupted",
  "When storing a cache entry fails (source stream error, any failing file operation, full disk) or the process dies at any point while doing so, the entry afterwards holds either its complete previous content, or the complete new content, or nothing, never partial or mixed content. A store that reports success has put exactly the bytes of the source under that name, and a store that could not do so reports an error. No temporary file outlives a store that returned.",
  ["fault_sequences", "crash_points", "histories"],
  "every history of stores and lookups, with a failure of any single file operation or source read, or a process death between any two file operations or source reads",
  "The unit tests mock the filesystem and look at the happy path and a handful of error returns; no test kills the process inside a store or looks at the bytes under the entry's name after a failure.",
  ["cache/cache.go", "util/files.go"],
  [("temporary file, then rename", "cache/cache.go:CacheToFile"), ("temp dir cleaning at start", "main.go:ensurePathsAndClearTempDir")],
  observe=["cache.CacheToFile return values", "directory content after every file operation"])
p("C02", "The cache never exceeds its configured maximum size",
  "With an eviction strategy other than 'none', after every successful store the total size of all cached files is at most the configured maximum, and a file that alone is larger than the maximum is refused with an error instead of being stored. With strategy 'none' no store ever removes another cached file.",
  ["histories", "configurations"],
  "every history of stores (new entries and replacements of existing ones, growing and shrinking), lookups and ageing, for every maximum size and eviction strategy",
  "The tests call the eviction helper with hand-written sizes against a mock; none runs a sequence of stores and adds up what lies in the directory, and replacing entries that are themselves eviction candidates is never exercised.",
  ["cache/cache.go", "util/files.go"],
  [("size accounting and eviction loop", "cache/cache.go:deleteFilesFromCacheIfNeeded"), ("directory size", "util/files.go:DirSizeInBytes")])
p("C03", "Eviction removes only the right files, and no more than necessary",
  "A store evicts other entries only if the cache would otherwise exceed its maximum size, and stops as soon as the new file fits. The victims are the least recently used entries under strategy 'lru' and the largest entries under strategy 'largest'; files outside the cache's entry folders, including temporary files, are never victims.",
  ["histories", "configurations"],
  "every history of stores, lookups and ageing over entries in several cache folders, for both eviction strategies and every maximum size",
  "The tests check single eviction steps on a mock that returns the victim itself; that the victim chosen on a real directory is right after any history, and that nothing else goes, is not sampled.",
  ["cache/cache.go", "util/files.go"],
  [("victim search", "util/files.go:FindLargestFile, FindLruFile"), ("eviction loop", "cache/cache.go:deleteFilesFromCacheIfNeeded")])
p("C04", "A cached file is usable exactly while it is fresh",
  "A lookup reports an entry as usable if and only if it exists and is not older than the configured maximum age in minutes; an outdated entry is removed by the lookup and is never handed out. Only under strategy 'lru' does a lookup of a usable entry renew its timestamp (so that recently used entries are evicted last); under the other strategies lookups never change an entry's age.",
  ["histories", "configurations"],
  "every history of stores, lookups and passing of time around the age limit, for every maximum age and eviction strategy",
  "The tests check one outdated and one fresh file on a mock; sequences in which lookups, age and strategy interact are not covered.",
  ["cache/cache.go"],
  [("age check", "cache/cache.go:isOutdated"), ("lookup", "cache/cache.go:GetFile")])
p("C05", "Different items never share a cache file and never leave the cache",
  "Two different item names in a cache folder are always stored in two different files, whatever characters they contain (apart from the names '.' and '..'), and storing or looking up one never changes or returns the other. Every item's file lies directly inside its own cache folder below the configured cache directory.",
  ["inputs"],
  "every pair of names over an alphabet that contains all the characters that are special to file systems, to escaping and to temporary-file patterns",
  "A single test encodes one string; injectivity and confinement are statements about all pairs of names.",
  ["util/files.go", "cache/cache.go"],
  [("name escaping", "util/files.go:SanitizeFilename"), ("path building", "cache/cache.go:GetFilePathInCache")])
p("C06", "Concurrent use of the cache has the effect of some sequential use",
  "When several workers store and look up cache entries at the same time, the results they get and the resulting cache content are those of the same operations executed one after the other in some order. In particular the size limit, the freshness rule and the completeness of entries hold under every interleaving.",
  ["schedules", "histories"],
  "every interleaving, at the granularity of single file operations and source reads, of two or three concurrent stores and lookups on the same or different entries",
  "All cache tests are single threaded.",
  ["cache/cache.go"],
  [("mutual exclusion of store and lookup", "cache/cache.go:cacheWriteMutex")])
# ------------------------------------------------------------------ http
p("H01", "A rate-limited request is repeated unchanged after the asked-for wait",
  "A request (download or form post) answered with 'too many requests' is sent again, with the same method, URL, headers and body, not before the number of seconds the server asked for has passed (two seconds if it gave no usable number), as often as the server answers like that. The first other answer decides the outcome exactly as if it had been the only one.",
  ["fault_sequences", "inputs"],
  "every sequence of server answers in which 'too many requests' with valid, missing or unusable wait times precedes a final answer of any kind, for downloads and posts",
  "One test covers a single 429 on a GET against a mock client that does not consume request bodies.",
  ["http/http.go"],
  [("retry loop", "http/http.go:doRequest")])
p("H02", "A failed download is reported, never cached, and tried again next time",
  "If the server cannot be reached, answers with a status other than success (200; redirections are followed), flags an API error in its header, or breaks off while sending, the download reports an error and leaves no cached content for the item. The next request for the same item contacts the server again and, if that succeeds, yields and caches exactly the bytes received.",
  ["fault_sequences", "histories"],
  "every sequence of downloads of several items with any failure kind at any attempt, including connections broken at any point of the body",
  "The tests cover single failing calls with mocks; broken bodies over a real transport and histories of failures and retries are not covered.",
  ["http/http.go", "cache/cache.go"],
  [("status and error header checks", "http/http.go:doRequest"), ("caching after success only", "http/http.go:DownloadAndCache")])
p("H03", "What is cached is not downloaded again, and what is downloaded is cached",
  "A download of an item whose fresh copy is cached makes no request and returns that copy's content; otherwise exactly one successful request is made, its body becomes the cached content, and the caller is told whether the content is newly downloaded. Every request identifies itself with the configured user agent in which the version placeholder is replaced by the program's version.",
  ["histories", "configurations"],
  "every history of downloads of several items across folders with ageing and eviction in between, and every user agent template",
  "The tests cover one cached and one uncached call with mocks.",
  ["http/http.go", "cache/cache.go"],
  [("cache lookup before request", "http/http.go:DownloadAndCache"), ("user agent", "http/http.go:download")])
# ------------------------------------------------------------------ wikipedia
p("W01", "An image is taken from the first source, in configured order, that has it",
  "The image-article hosts are asked in the configured order until one provides both the image's description page and the image file; later hosts are not asked then, and the run fails if and only if no host provides it. Redirected image names are followed to fetch the file, which is stored under the name used in the article, with spaces as underscores.",
  ["fault_sequences", "inputs", "configurations"],
  "every list of hosts and every assignment of outcomes (page missing, page redirected, file missing, present) to hosts, for several images in a row with a cold or warm cache",
  "The tests use a mock in which the first or last source works for one image; combinations of failures over hosts, redirects and a warm cache are not covered.",
  ["wikipedia/wikipedia.go"],
  [("source loop", "wikipedia/wikipedia.go:downloadImageUsingAllSources"), ("redirect and URL building", "wikipedia/wikipedia.go:downloadImage")])
p("W02", "Every fetched image gets the configured processing, exactly once",
  "After an image has been fetched, a PDF, SVG or WebP file is converted to a PNG beside it with the command configured for its type (if one is configured and no such PNG exists yet), and then the newly downloaded or newly converted raster image is processed once with the configured processing command; an image that was already cached and processed is not processed again, and SVG and PDF files are never passed to the processing command. A failing command makes the run fail and leaves no picture that a later run would take for finished. All this also holds when several workers need the same picture at the same time.",
  ["inputs", "configurations", "histories"],
  "every file type, every subset of configured commands, cold, warm and partly warm caches, and failing commands",
  "The tests cover a few type/command combinations with a mock; second runs and partly warm caches are not covered.",
  ["wikipedia/wikipedia.go", "image/image.go"],
  [("post processing", "wikipedia/wikipedia.go:postProcessImage"), ("command templates", "image/image.go, util/cmd.go")])
p("W03", "Formulas are rendered by the configured converter from the right source",
  "For every formula the server is asked once to check exactly that formula (afterwards the answer comes from the cache), and the SVG belonging to the server's answer is fetched; with converter 'none' that SVG is the picture, with 'wikimedia' the server's PNG is fetched too, with 'template' the configured command turns the SVG into the PNG. Different formulas never get each other's pictures, and any failing step is reported as an error.",
  ["inputs", "configurations", "histories"],
  "every sequence of equal and different formulas, every converter, cold and warm caches, failures at every step",
  "The tests check one formula with a mock per converter.",
  ["wikipedia/wikipedia.go"],
  [("formula resource lookup", "wikipedia/wikipedia.go:getMathResource"), ("converter dispatch", "wikipedia/wikipedia.go:RenderMath")])
p("W04", "Requests name exactly the wanted item, and answers are used for that item",
  "The page, template or image requested from the server is, after URL decoding, exactly the one wanted (with spaces written as underscores in page and image names), whatever characters its name or text contains, and it is requested from the configured host. The text handed to the parser is the text the server returned for that item, also when it comes from the cache, and an article keeps the title it was requested with even when the server redirects.",
  ["inputs", "histories"],
  "every title, template text and image name over an alphabet with all URL, JSON and file name special characters; sequences that mix items and repeat them",
  "The tests use a handful of plain names.",
  ["wikipedia/wikipedia.go", "parser/template.go"],
  [("URL building", "wikipedia/wikipedia.go:DownloadArticle, EvaluateTemplate, downloadImage")])
# ------------------------------------------------------------------ book
p("B01", "A book contains every listed article, exactly where it was listed",
  "Whatever the number of workers and however long each article takes, the chapters handed to the book generator are, in order, exactly the documents of the project's articles, one per listed article (also when an article is listed twice). The book is assembled only after all of them are finished.",
  ["schedules", "inputs", "configurations"],
  "every completion order of the articles' downloads, every number of workers and every list of articles with and without duplicates",
  "No test runs the worker pool.",
  ["main.go"],
  [("worker pool and result slots", "main.go:generateBookFromArticles")])
p("B02", "No book is announced or assembled when any part of it failed",
  "If any article, template, image, formula, conversion command or the book generator itself fails, the program exits with a non-zero status and prints no success message, and unless the generator itself was the failing part it is never started. If nothing fails, it exits with status zero and reports success.",
  ["fault_sequences", "schedules"],
  "a failure of any kind in any single item, at any position in the order in which workers meet it",
  "No test runs the program end to end with failures.",
  ["main.go", "wikipedia/wikipedia.go", "parser/template.go", "generator/epub.go"],
  [("fatal error checks", "main.go:processArticle, generateBookFromArticles")])
p("B03", "Every picture a chapter shows exists when the book is assembled",
  "When the book generator is started, every image file that any chapter refers to exists inside the cache directory, relative to which the reference is written, with exactly the content obtained for that picture (fetched, converted or processed). This holds for article pictures, inline pictures, galleries, image maps and formulas, whatever converters are configured.",
  ["inputs", "configurations", "schedules"],
  "articles combining pictures of every kind and type with formulas, every conversion configuration, several workers sharing pictures",
  "The HTML tests check one image path at a time against no file system at all.",
  ["generator/html.go", "wikipedia/wikipedia.go", "parser/image.go", "parser/tokenizer.go"],
  [("path rewriting", "generator/html.go:expandImage, expandInlineImage, expandMath"), ("image list", "parser/tokenizer.go, parser/image.go")])
p("B04", "A run after a crash produces the same book as an undisturbed run",
  "If a run is killed at any point, running the program again on the same input and cache succeeds and hands the same chapters and pictures to the book generator as a run that was never disturbed.",
  ["crash_points", "histories"],
  "a kill at every network request and every external command of a run, followed by a rerun",
  "No test kills the program.",
  ["cache/cache.go", "main.go", "wikipedia/wikipedia.go"],
  [("atomic cache entries", "cache/cache.go:CacheToFile"), ("temp dir cleaning", "main.go:ensurePathsAndClearTempDir")])
p("B05", "Running twice downloads nothing again and gives the same book",
  "A second run on the same input with an intact cache makes no request for articles, templates, images or formulas and hands the same chapters in the same order to the book generator. Neither the number of workers nor the mode of the first run's schedule changes the chapters.",
  ["histories", "configurations", "schedules"],
  "every project of articles sharing images, templates and formulas, every pair of worker counts, two or more runs",
  "No test runs the program twice.",
  ["main.go", "http/http.go", "cache/cache.go", "wikipedia/wikipedia.go"],
  [("cache lookup before request", "http/http.go:DownloadAndCache"), ("chapter reuse", "main.go:processArticle")])
p("G01", "The book generator gets exactly the configured settings and files",
  "The external book generator is called once with the configured output type, the requested output file, the project's metadata, and the configured table-of-contents depth, style sheet, cover image, font files and data directory, each if and only if it is set. The output file is the one from the command line if given there, else the one of the project file, else the default name, and an existing directory given as output stands for the default name inside of it.",
  ["configurations"],
  "every combination of set and unset settings and metadata, in project, article and standalone mode",
  "No test looks at the generator's arguments.",
  ["generator/epub.go", "main.go"],
  [("argument building", "generator/epub.go:GenerateEpubWithPandoc"), ("output file choice", "main.go:ensurePathsAndClearTempDir")])
# ------------------------------------------------------------------ config
p("K01", "Command line beats project file beats config file beats default",
  "For every configuration setting the effective value is the one from the most specific source that sets it to something other than the built-in default: command line before project file before config file before default. Settings that no source sets keep their default, and setting one never changes another.",
  ["configurations"],
  "for every setting, every combination of sources that set it, with the other settings set or unset",
  "The tests cover merging of one fully populated configuration; combinations of sources per setting are not covered.",
  ["config/config.go", "config/project.go", "main.go"],
  [("merging", "config/config.go:MergeIntoCurrentConfig"), ("loading", "config/config.go:LoadConfig, config/project.go:LoadProject")])
p("K02", "An invalid configuration is rejected before any work is done",
  "A config file, project file or command line that yields an invalid effective setting (unknown output type, driver, converter or eviction strategy, output type and driver that do not fit, a table-of-contents depth outside 0-6, fewer than one worker, non-positive cache size or age, a command template lacking its input or output placeholder, a file that does not exist, unreadable or malformed files) makes the program exit with a non-zero status without contacting any server or starting any command. Every source has to be valid together with the less specific ones. Every valid configuration is accepted.",
  ["configurations", "inputs"],
  "every setting with values inside, at the edge of and outside its valid range, from every source that can set it",
  "The tests check validation of some fields through a replaced error handler.",
  ["config/config.go", "main.go"],
  [("validation", "config/config.go:AssertValidity, AssertFilesAndPathsExists")])
p("K03", "Relative paths are resolved against the file that contains them",
  "A relative path in a config file or project file is resolved against the directory of that file, a relative path on the command line against the directory the program was started in, and absolute paths are used as they are; this holds for the cache directory, style sheet, cover image, font files, data directory and output file.",
  ["configurations"],
  "every path setting, from every source, absolute and relative with and without parent steps, program started in any directory",
  "The tests check relative paths of one configuration only.",
  ["config/config.go", "config/project.go", "main.go", "util/files.go"],
  [("path resolution", "config/config.go:makePathsAbsolute, MakePathsAbsoluteToWorkingDir")])
# ------------------------------------------------------------------ parser and HTML
p("P01", "Every footnote mark leads to the right footnote",
  "References are numbered by first appearance; repeated uses of the same named reference (in the same group, whichever quoting or spelling of the tag is used, and wherever its text is given) share one number, and unnamed ones get a number each. The article's reference list shows each number exactly once, in order, with that reference's text, and the marks in the running text show the same numbers.",
  ["inputs"],
  "every arrangement of unnamed, named, reused and list-defined references of one group, before and inside a reference list",
  "The tests cover a few fixed arrangements.",
  ["parser/reference.go", "generator/html.go"],
  [("numbering", "parser/reference.go"), ("rendering", "generator/html.go:expandRefDefinition, expandRefUsage")])
p("P02", "Lists keep their items, order, kinds and nesting",
  "Every list item of the wikitext appears exactly once in the document, in order, in a list of the kind its markers ask for (bullets, numbers, term and description) and nested as deep as its markers say. Text before and after a list stays outside of it.",
  ["inputs"],
  "every list with prefixes over the list markers up to a bounded depth and length, including jumps in depth and changes of kind",
  "The tests cover fixed examples.",
  ["parser/list.go", "generator/html.go"],
  [("list tokenizing", "parser/list.go"), ("rendering", "generator/html.go")])
p("P03", "Tables keep their rows, cells, headings, captions and attributes",
  "Every cell of a table appears exactly once, in its row and at its place, as heading or ordinary cell as written, with its column and row span and its content, whichever of the equivalent notations (one cell per line, several cells per line) is used; captions and nested tables stay where they belong.",
  ["inputs"],
  "every table up to a bounded number of rows and cells, over cell kinds, notations, attributes, captions and nested content",
  "The tests cover fixed examples.",
  ["parser/table.go", "generator/html.go"],
  [("table tokenizing", "parser/table.go")])
p("P04", "Bold and italic text is marked exactly as written and well nested",
  "For every combination of apostrophe groups in a line that opens and closes italic and bold, the document marks exactly the text in between as italic, bold or both, the text itself is unchanged, and the produced markup is well nested.",
  ["inputs"],
  "every balanced sequence of italic, bold and bold-italic marks with text in between up to a bounded length",
  "The tests cover fixed examples.",
  ["parser/formatting.go", "generator/html.go"],
  [("apostrophe automaton", "parser/formatting.go")])
p("P05", "Templates are replaced by exactly what the server says they expand to",
  "Every template call in an article, nested ones included, is replaced by the server's expansion of exactly that call, at its place (nowiki areas excepted), and every ignored template is dropped without asking the server; trailing templates end up at the end of the article. Everything around the calls is unchanged, and equal calls are expanded by one request.",
  ["inputs", "configurations"],
  "every arrangement of plain, nested, repeated, ignored and trailing template calls up to a bounded size",
  "The tests cover fixed examples with mocks.",
  ["parser/template.go", "parser/cleaner.go", "wikipedia/wikipedia.go"],
  [("template evaluation", "parser/template.go:evaluateTemplates"), ("ignored and trailing templates", "parser/cleaner.go")])
p("P06", "Cleaning removes what should go and nothing else",
  "Comments, category links, links to other media or languages that are not allowed, ignored media and empty sections and list items disappear from the article, and all other text, headings and allowed links stay, in order, as does everything in nowiki areas. A link with a prefix that is not allowed goes, as documented, even where an article's name has a colon. A section goes if nothing but blank lines, comments and removed things follow its heading before the next heading of the same or a higher level; whether one stays that has only empty sections or only ignored media is left open, as is whether a line only of bold text is treated as a heading in this respect.",
  ["inputs", "configurations"],
  "every document built from a bounded number of removable and non-removable blocks in any order and nesting of sections",
  "The tests cover fixed examples.",
  ["parser/cleaner.go"],
  [("cleaning steps", "parser/cleaner.go")])
p("P07", "The article's text reaches the document complete and in order",
  "For every article built from well-formed constructs (paragraphs that begin with a word, headings with content below them, lists, tables, pictures, galleries, image maps, links, formatting, formulas, references, templates, nowiki areas, inline HTML and comments) in any combination and nesting, all visible text appears in the document exactly once and in its original order, each construct in the markup of its kind, and no internal placeholder or wikitext markup is left over. Processing terminates without failure.",
  ["inputs"],
  "every document generated from the specification's grammar of headings, paragraphs, formatting, links, lists, tables, pictures, formulas, references and literal text up to a bounded size and nesting depth",
  "The tests exercise constructs mostly one at a time.",
  ["parser/tokenizer.go", "parser/pattern.go", "generator/html.go", "generator/expand.go"],
  [("token replacement", "parser/tokenizer.go"), ("token expansion", "generator/expand.go")])
# ------------------------------------------------------------------ statistics
p("S01", "Statistics count what is in the articles, and the total is the sum",
  "The statistics of an article count everything of its text once, whatever construct it is in: the words, the characters (white space may vary), the internal links in total and per linked article (by the name as written, without section; links to a section of the article itself name no article), external links, images, formulas, reference definitions and their uses. The combined statistics of a project have for every figure the sum over its articles, name as uncovered exactly the linked articles that are not articles of the project, with their total number of links, and rank the highest of these numbers (10 in JSON, 20 in the readable form, there in descending order). Made again from the same articles, they are the same.",
  ["inputs", "configurations"],
  "every set of articles with any links among them and to others, nested in any construct",
  "The tests cover fixed examples of one article.",
  ["generator/stats.go"],
  [("counting", "generator/stats.go"), ("combination", "generator/stats.go:GenerateCombinedStats")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
