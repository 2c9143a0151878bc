"""What each check decides, by which rule; read by check.py and tools/gen_manifest.py."""

ASSUMPTIONS = [
    "the models of json, xml.etree, base64, zlib, gzip, zstd, struct, pathlib, os, re and the builtins (sa/lib.py, "
    "sa/models.py) describe what those libraries do",
    "documents are the skeletons of sa/scenarios.py with every attribute value abstract; every presence and zero/false/"
    "empty combination of any two optional parts of one document part (three in the thorough tier) is a partition",
    "a construct the analysis does not model is counted under `undecided` and raises no alarm",
]

FAITH = ("The document in each partition is abstract (attribute values are symbols); the interpreter propagates where every "
         "attribute of the returned objects comes from, and the rule is: its provenance term must be the one the "
         "format assigns to that attribute (the named document attribute through the right conversion, or the "
         "documented default when absent).")

PROPS = {
    "C01": dict(technique="interprocedural value-set dataflow over the format dispatch", how=(
        "The sniffing of the first character and the dispatch to each parser are analysed for every combination of main, "
        "tileset and template format with file names left abstract."),
        rule="no partition of well-formed documents reaches a parse error of the wrong format; garbage and empty files "
        "reach exactly the unknown-format error; an object of one format is never given to the other format's parser"),
    "C02": dict(technique="provenance dataflow, partitioned by attribute presence", how=FAITH,
                rule="every attribute of the returned map object has the provenance of its own document attribute or its default"),
    "C03": dict(technique="provenance dataflow, partitioned by attribute presence", how=FAITH,
                rule="every attribute of every layer object has the provenance of that very layer's document attribute or its default"),
    "C04": dict(technique="provenance dataflow on list membership and order", how=(
        "List membership, order and nesting of layers and objects are tracked per document element through loops, "
        "comprehensions and recursion."),
        rule="each list of layers or objects holds exactly the elements of its own document part, in order, each of the "
        "class of its kind; an unknown kind reaches an error"),
    "C05": dict(technique="byte-level provenance dataflow through the decoding pipeline", how=(
        "Each cell of the grid is a term over the bytes (or numbers) of the encoded payload."),
        rule="cell (row, column) is the little-endian sum of bytes 4*(row*width+column)..+3 of the payload decoded by the "
        "named compression; unsupported or unavailable compressions reach an error"),
    "C06": dict(technique="provenance dataflow, partitioned by attribute presence", how=FAITH,
                rule="every attribute, point and text setting of every object has its own document attribute's provenance or its default"),
    "C07": dict(technique="class-set dataflow per object marker", how=(
        "The set of classes each document object may be returned as is computed for each marker with every combination "
        "of the other attributes, in layers, groups, tile collision groups and templates."),
        rule="the set is exactly the class of the marker"),
    "C08": dict(technique="provenance dataflow over template merging and gid arithmetic", how=FAITH + (
        " Instances and templates split the attributes in every pairwise way; gids are linear terms."),
        rule="each attribute comes from the instance if it states it, else from the template; id always from the instance; gid is "
        "the template's plus (first gid of the tileset of that name - 1); other-format templates reach NotImplementedError"),
    "C09": dict(technique="provenance dataflow, partitioned by attribute presence", how=FAITH,
                rule="every attribute of every tileset, tile, frame, grid, transformation and collision object has its own "
                "document attribute's provenance or its default"),
    "C10": dict(technique="provenance dataflow, partitioned by attribute presence", how=FAITH,
                rule="every attribute of Wang sets, colours and tiles has its own document attribute's provenance; lists keep order"),
    "C11": dict(technique="provenance and type dataflow of property values", how=FAITH + (
        " Property parts are placed on every owner with every declared type."),
        rule="each owner's mapping has exactly its own property names, each value being its own text through the conversion "
        "of its declared type"),
    "C12": dict(technique="path-term dataflow into opens and image paths", how=(
        "Paths are symbolic terms join(directory of file, reference); every open and every returned path is such a term."),
        rule="each opened path is the term a document reference stands for; each image path is the term for its kind; no directory "
        "is listed or file opened that no reference names"),
    "C13": dict(technique="key/value dataflow of id-keyed mappings", how=(
        "Mapping entries are tracked as (key term, member) pairs; ids are fixed distinct constants in scrambled order."),
        rule="the key set is the id set of the document and each member recorded under a key carries that id"),
    "C14": dict(technique="heap ownership/escape analysis and effect analysis on static state", how=(
        "Every store is attributed to its heap object; objects are divided into those allocated by this call and static ones. "
        "The call is analysed again on the heap it leaves behind."),
        rule="no store to a static object, module variable or default argument; no container reachable twice in a result or from "
        "two results; the second result has the expected provenance and the first is unchanged",
        ),
    "C15": dict(technique="effect and open/close typestate analysis", how=(
        "Every call of the standard library reached on any path, including exception exits, is classified by effect; each file "
        "handle is a typestate object."),
        rule="no write mode, output, process, network, environment, eval or import effect; every handle is closed at every return and "
        "every exception exit"),
    "C16": dict(technique="exception-flow analysis on failing documents", how=(
        "Documents with a broken, missing or wrong-format file, a missing required attribute, an unreadable number, an unknown layer "
        "kind or compression are analysed; the set of exits is computed."),
        rule="no normal return is reachable, and the exceptions that come out are of the documented kind"),
    "C17": dict(technique="provenance dataflow over world parsing", how=FAITH + (
        " Directory entries are abstract names that match, match elsewhere or do not match each pattern."),
        rule="the map list holds exactly the listed maps then the matching files with the documented position and size terms; "
        "nothing but the world file is opened"),
    "C18": dict(technique="differential provenance dataflow over sibling parsers", how=(
        "The XML and the JSON rendition of each document are analysed against one expectation."),
        rule="no attribute or outcome is right for one format and wrong for the other"),
    "C19": dict(technique="type-and-provenance dataflow", how=(
        "The type of every value in every attribute of the result is derived from its term."),
        rule="each attribute's term has the documented type; no raw document text where a number, flag or version belongs"),
    "C20": dict(technique="digit-level provenance dataflow", how=(
        "Colour text is a sequence of symbolic digits, with and without '#', of six and eight digits at every place a colour occurs."),
        rule="each channel is 16*digit+digit of its own pair and alpha is 255 when not given; other digit counts reach ValueError"),
    "C21": dict(technique="effect analysis of encoding arguments at every open and decode", how=(
        "The encoding argument reaching every text open or decode is computed on every path."),
        rule="every text-mode open and every decode names UTF-8"),
    "C22": dict(technique="loop and recursion progress analysis", how=(
        "Loops and recursions are analysed on every document family, including self-referential and zero-sized ones; a loop "
        "whose exit condition never changes, a list that grows while iterated, or a recursion that does not descend is a divergence."),
        rule="no reachable loop or call cycle without progress"),
    "C23": dict(technique="exception-flow analysis on well-formed documents", how=(
        "The set of exits is computed for every partition of well-formed documents, including empty lists."),
        rule="no exception exit is reachable"),
}

NOT_APPLICABLE = {
    "C30": "a bound on running time and memory as a function of the input's size and of decompressed sizes: a cost property of "
           "runtime quantities for which no sound static argument over Python source and C libraries is in reach",
    "C31": "the behaviour of the JSON, XML, Base64, zlib, gzip and zstd libraries, whose source is not in this repository; "
           "the checks trust their models instead",
}
