import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=hook)))

p("C01","Squashing layers preserves the filesystem the layers produce",
 "For any stack of well-formed layers and any base filesystem, extracting the single squashed layer on top of the base gives the same tree as extracting the input layers one after another in order: same paths, file types, contents, permission bits, owners, modification times, symlink targets, hard-link groups and deletions. Explicit whiteouts, opaque whiteouts, files turning into directories and back, and entries written through symlinked directories are all honoured, whichever layer of the stack they occur in. (Well-formed: whiteouts are empty regular files, a hard link refers to a file of its own layer, and no entry is written through a symlink that only the base has.)",
 ["inputs","histories"],"all layer stacks (any number of layers, entry orders, entry types, whiteouts, symlinked directories) x all base trees",
 "The suite squashes ten hand-written stacks and compares entry lists; it has no base filesystem, no contents or metadata, no hard links, and cannot range over combinations of whiteouts, type changes and links.",
 ["pkg/squash/squash.go","pkg/squash/vfs.go","pkg/squash/readlayer.go","cmd_layer_squash.go"],
 [("layers applied in order, whiteouts of a layer before its files","pkg/squash/squash.go:loadLayers"),("implicit whiteouts made explicit on type changes","pkg/squash/vfs.go:fsfile.Set/Get")],
 [("virtual filesystem tree","merged view of the layers read so far","pkg/squash/vfs.go:fsfile")],
 ["output of squash.Squash and `ocibuild layer squash`, extracted by an independent extractor"])

p("C02","A squashed layer is a canonical, unambiguous archive",
 "The squashed layer names every path exactly once, puts every directory before its contents, every deletion marker before its siblings, every hard link after the file it refers to, and otherwise orders siblings bytewise by name, with directory names ending in a slash. The same input always yields byte-identical output, squashing an already squashed layer changes nothing, and squashing a prefix of the stack first and then the rest gives the same bytes as squashing everything at once.",
 ["inputs","histories"],"all layer stacks, all repetitions and all left groupings of a stack",
 "Go map iteration order and entry orderings vary per run; the suite runs each fixed stack once and never regroups or re-squashes.",
 ["pkg/squash/vfs.go","pkg/squash/squash.go"],
 [("sorted traversal on output, whiteouts first","pkg/squash/vfs.go:fsfile.WriteTo")],(),
 ["entries and bytes of the output of squash.Squash"])

p("C03","Malformed or hostile layers are refused with an error, never a crash",
 "Reading layers terminates with either a usable result or an error for every input: archives containing an entry outside the image root, truncated or corrupted archives or compressed streams, and stacks whose entries must be written through looping symlinks are all reported as errors with no layer emitted. No layer stack makes the squasher or the layered filesystem view crash, recurse without bound or run forever. (Names are up to the system's path length.)",
 ["inputs","fault_sequences"],"all byte streams offered as layer or image files, all truncation points, all symlink graphs",
 "The suite only feeds well-formed archives; looping, escaping, truncated and corrupted inputs are never tried.",
 ["pkg/squash/readlayer.go","pkg/squash/vfs.go","pkg/squash/vfs_fs.go","pkg/fsutil/open.go"],
 [("out-of-root check","pkg/squash/readlayer.go:parseLayer"),("symlink loop detection","pkg/squash/vfs.go:fsfile.Get")],(),
 ["error/result of squash.Squash, squash.Load and the CLI; CPU, memory and process death of the monitored worker"])

p("C04","The layered filesystem view shows exactly the merged tree",
 "Opening, reading, listing and stat-ing the filesystem view of a layer stack shows exactly the files the stack produces: right contents, types, sizes, modes and owners, symlinks followed inside the image root, deleted files absent, every live entry listed exactly once in name order, deletion markers never listed. When loaded without contents the view still lists and stats everything but refuses to return file data rather than returning wrong data, and a closed handle returns nothing. The view may be used from many goroutines at once without data races and with the same answers.",
 ["inputs","schedules","histories"],"all layer stacks x all paths, read sizes and call sequences x all concurrent schedules of readers",
 "The suite checks one nine-file layer with empty files from one goroutine.",
 ["pkg/squash/vfs_fs.go","pkg/squash/vfs.go"],
 [("per-handle mutex and position","pkg/squash/vfs_fs.go:fsfileReader"),("symlink resolution","pkg/squash/vfs.go:fsGet")],
 [("open handle position and directory cache","progress of Read/ReadDir","pkg/squash/vfs_fs.go:fsfileReader")],
 ["results of fs.FS calls on squash.Load output; race detector reports"])

p("C05","A directory layer is a faithful copy of the directory",
 "The layer built from a directory contains every entry below it exactly once, under the requested prefix, with the same type, contents, permission and special mode bits, symlink target, hard-link grouping and (unless overridden) numeric owner and group, parents before children, and nothing else except one directory entry per component of the prefix. Ownership overrides apply to every entry read from the directory, prefix ownership and mode apply to every prefix directory, and modification times equal the source's to the second unless later than the clamp time (SOURCE_DATE_EPOCH; without it, the current time).",
 ["inputs","configurations"],"all directory trees (names, types, modes, links, sizes) x all prefix and ownership settings",
 "There is no test at all for directory layers.",
 ["pkg/dir/dir.go","cmd_layer_dir.go"],
 [("walk, header construction, clamp, chown, content copy","pkg/dir/dir.go:LayerFromDir")],(),
 ["tar entries produced by dir.LayerFromDir and `ocibuild layer dir`"])

p("C06","Outputs are reproducible and carry no timestamp past the clamp",
 "For the same inputs and the same SOURCE_DATE_EPOCH or clamp time, every layer- and image-producing operation (directory, wheel, Go binaries, squash, image build) emits byte-identical output on every run, independent of wall-clock time, host umask, time zone, working directory, file creation order, temporary-directory name and map iteration order. No entry that the operation dates itself, and no entry of a directory or wheel layer at all, carries a time later than the clamp time. (The clamp is a whole second, for Go binaries in the past; a wheel installed without any clamp is dated by its own members, within two seconds of the newest.)",
 ["configurations","inputs","histories"],"all inputs x all host environments and repeated runs",
 "Reproducibility is a relation between runs in different environments; each test runs once in one environment.",
 ["pkg/reproducible/source_date_epoch.go","pkg/fsutil/fileref.go","pkg/dir/dir.go","pkg/python/py_compile.go","pkg/python/pypa/bdist/binary_distribution_format.go","cmd_image_build.go"],
 [("SOURCE_DATE_EPOCH","pkg/reproducible/source_date_epoch.go:Now"),("time clamp and sorted entries","pkg/fsutil/fileref.go:LayerFromFileReferences")],(),
 ["bytes on stdout of the CLI in varied environments"])

p("C07","A wheel whose contents disagree with its RECORD is never installed",
 "Installing succeeds only if every file in the wheel other than RECORD and its signatures is listed in RECORD with a matching SHA-256-or-stronger hash and a matching size, and every file RECORD lists is present; otherwise installation fails with an error and no layer is produced. A wheel with no or several metadata directories, an unreadable RECORD, missing or weak hashes, missing files, extra files or any altered byte is refused, however the tampering is arranged (including duplicate or directory-disguised archive members).",
 ["inputs","fault_sequences"],"all wheels x all tamperings of members, RECORD rows and archive metadata",
 "The suite's wheel tests need the network and install only pristine PyPI wheels; no tampered wheel is ever tried.",
 ["pkg/python/pypa/bdist/binary_distribution_format.go","pkg/python/pypa/bdist/misc.go"],
 [("integrity check before installing","pkg/python/pypa/bdist/binary_distribution_format.go:integrityCheck")],(),
 ["error/layer returned by bdist.InstallWheel and `ocibuild layer wheel`"])

p("C08","Every wheel member is installed at the place and mode the scheme says",
 "An installed wheel layer contains each archive member exactly once: library files under the pure or platform library directory according to Root-Is-Purelib, and each data-directory member under its category's scheme directory, with unchanged contents except that scripts beginning with the generic python (or pythonw) shebang get the platform's console (or graphical) interpreter path. Files are mode 0644, or 0755 if executable in the archive or rewritten as scripts, directories 0755, files are dated as in the archive (or at the time the caller fixes) but never past the clamp, everything is owned by the platform's user and group, every parent directory is present before its contents, and signature files, the original RECORD and the emptied data directory are not installed. Unsupported data categories and incompatible major wheel format versions are refused, and so are members that would end up at the same path or below a file, and platforms without an interpreter or with a scheme directory that is not absolute.",
 ["inputs","configurations"],"all well-formed wheels x all platform schemes",
 "The only wheel-install tests require PyPI and docker/pip on the network and are skipped here; they cover a few real wheels on one scheme.",
 ["pkg/python/pypa/bdist/binary_distribution_format.go","pkg/python/pypa/bdist/ioutil.go","pkg/python/pypa/bdist/misc.go","pkg/python/platform.go"],
 [("unpack and spread","pkg/python/pypa/bdist/binary_distribution_format.go:installToVFS"),("shebang rewriting","pkg/python/pypa/bdist/binary_distribution_format.go:rewritePython")],
 [("installed tree","path to file of the layer under construction","vfs map")],
 ["tar entries of the layer returned by bdist.InstallWheel and `ocibuild layer wheel`"])

p("C09","The installed RECORD accounts for exactly the installed files",
 "The RECORD of an installed wheel lists, sorted and once each, exactly the regular files of the layer by their path relative to the library directory, with the chosen hash and size of the installed content (bytecode files and RECORD itself without hash and size; scripts whose shebang was rewritten with the archive's hash and size). INSTALLER names the installer, a direct_url.json is present exactly when an origin was given and holds exactly that origin as JSON, a REQUESTED marker is written exactly when asked for; these files and RECORD are ordinary files of mode 0644 that belong to the platform's user and group and are dated at the clamp time. Unsupported hash names are refused. (For wheels that do not ship these files themselves.)",
 ["inputs","configurations"],"all well-formed wheels, schemes, hash algorithms and origins",
 "No offline test installs a wheel; the JSON test formats one value.",
 ["pkg/python/pypa/recording_installs/recording_installs.go","pkg/python/pypa/direct_url/direct_url.go","pkg/python/pypa/direct_url/json.go","pkg/python/pep376/requested.go","pkg/python/pypa/bdist/hack.go"],
 [("RECORD generated last from the final tree","pkg/python/pypa/recording_installs/recording_installs.go:Record")],(),
 ["RECORD, INSTALLER, direct_url.json, REQUESTED entries of the layer versus all other entries"])

p("C10","Entry points become working launcher scripts",
 "For every console and gui entry point declared by a wheel there is exactly one executable script of that name in the scripts directory, whose first line is the platform's console (respectively graphical) interpreter and which, when run by Python, imports the declared module, calls the declared object (including dotted attributes, ignoring extras) and exits with its result. A malformed declaration or a value that is not a module:object reference fails the install instead of producing a broken script, and other entry-point groups produce nothing.",
 ["inputs","programs"],"all entry_points.txt files x all platforms",
 "No offline test creates a launcher; whether generated Python runs cannot be seen by comparing strings of one sample.",
 ["pkg/python/pypa/entry_points/entry_points.go","pkg/python/configparser.go"],
 [("template and reference parsing","pkg/python/pypa/entry_points/entry_points.go:CreateScripts")],(),
 ["script entries in the layer, executed under a real Python"])

p("C11","A wheel cannot place anything outside the directories it may write to",
 "No wheel, whatever its member names, data paths or entry-point names contain (parent references, absolute paths, redundant separators), makes the resulting layer contain an entry outside the scheme directory that member belongs to, an entry with a non-canonical or escaping name, or the same path twice, nor makes the installer write or delete host files outside its own temporary directory. Members that would escape are refused with an error.",
 ["inputs"],"all member names, data-directory paths and entry-point names",
 "Only benign wheels are ever installed by the suite, and none of them offline.",
 ["pkg/python/pypa/bdist/binary_distribution_format.go","pkg/python/pypa/bdist/ioutil.go","pkg/python/pypa/entry_points/entry_points.go","pkg/python/py_compile.go"],
 [("path joining of member names","pkg/python/pypa/bdist/binary_distribution_format.go:installToVFS"),("temporary compile tree","pkg/python/py_compile.go:ExternalCompiler")],(),
 ["tar entry names; sentinel files around the temporary directory"])

p("C12","Version parsing and ordering follow PEP 440",
 "Every string is accepted as a version exactly when PEP 440 accepts it, with the same normalized form, the same epoch, release, pre, post, dev and local parts, and the same pre-release and final classification; normalizing is idempotent and formatting a parsed version parses back to an equal version. Comparison is a total order that agrees with PEP 440 on every pair, including epochs, trailing zeros, large numbers and local segments. (A number beyond 64 bits may be refused, but is never read as another number.)",
 ["inputs"],"all strings, all pairs and triples of versions",
 "The suite checks the PEP's own examples and small random round trips, never acceptance of arbitrary spellings nor ordering against an independent implementation.",
 ["pkg/python/pep440/01_version_scheme.go","pkg/python/pep440/03_tail.go"],
 [("regular expression and part parsers","pkg/python/pep440/03_tail.go:parseVersion"),("component-wise comparison","pkg/python/pep440/01_version_scheme.go:Cmp")],(),
 ["results of ParseVersion, String, Normalize, Cmp, IsPreRelease, IsFinal"])

p("C13","Version specifiers match exactly the versions they denote",
 "A specifier string is accepted exactly when it is well-formed (any amount of whitespace, any clause order, wildcard only where allowed), formatting it and parsing it back gives an equivalent specifier, and it matches a version exactly when every clause does: compatible-release, prefix and exact (in)equality follow PEP 440, and the ordered comparisons follow the version order, ignoring local parts of the candidate. Requires-Python specifiers follow the PEP 345 rules the project documents, where bare and equality clauses match the whole release series and exclude pre- and post-releases.",
 ["inputs"],"all specifier strings x all versions",
 "The suite tries a few dozen spec/version pairs and never specifiers without spaces after < or >, nor round trips.",
 ["pkg/python/pep440/02_version_specifiers.go","pkg/python/pep345/metadata.go"],
 [("clause parsing and match functions","pkg/python/pep440/02_version_specifiers.go"),("PEP 345 clauses","pkg/python/pep345/metadata.go")],(),
 ["results of ParseSpecifier, Match, String and of the PEP 345 equivalents"])

p("C14","The best allowed candidate is selected",
 "Selecting from a set of candidate versions returns the highest version that matches the specifier and is not excluded (pre-release or yanked), falls back to the highest matching excluded one only when nothing else matches, and returns nothing when nothing matches, independent of candidate order. Choosing a wheel from an index additionally considers only wheels compatible with the supported tags and the target Python, then prefers the most preferred tag and then the highest build number, never choosing a yanked file while an unyanked one would do (an unyanked pre-release is preferred to a yanked release; when everything is yanked the highest version is chosen).",
 ["inputs","configurations"],"all candidate sets, orders, specifiers, exclusion sets and tag lists",
 "Select and SelectWheel have no offline test at all.",
 ["pkg/python/pep440/02_version_specifiers.go","pkg/python/pep592/yank.go","pkg/python/pypa/simple_repo_api/pypa_repo_api.go","pkg/python/pep425/tags.go"],
 [("selection","pkg/python/pep440/02_version_specifiers.go:Select"),("wheel choice","pkg/python/pypa/simple_repo_api/pypa_repo_api.go:SelectWheel")],(),
 ["return values of Select and SelectWheel against a loopback index"])

p("C15","The index client returns only what the index names, verified",
 "Listing a project requests its normalized name under the index URL and returns every link of the page in order with its text, its URL resolved against the page's final location and its data attributes; file data is returned only if the server answered 200 and the bytes match every supported checksum in the link, otherwise there is an error, and signatures come from the file's .asc companion. Incompatible index versions, illegal project names and links that the target Python cannot use are rejected as documented, and downloading a wheel by filename yields exactly the named file's verified bytes on stdout or fails with nothing written.",
 ["inputs","fault_sequences","configurations"],"all index pages, URLs, checksums, HTTP statuses, truncations and project names",
 "The index tests need pypi.org and are excluded offline; even they never see wrong checksums, errors or redirects.",
 ["pkg/python/pep503/simple_repo_api.go","pkg/python/pep629/simple_api_versions.go","cmd_python_getwheel.go"],
 [("fetch, status and checksum validation","pkg/python/pep503/simple_repo_api.go:Client.get"),("page parsing","pkg/python/pep503/simple_repo_api.go:getHTML5Index")],(),
 ["requests received by a hostile loopback HTTP server and the client's results"])

p("C16","A built image is the base plus the given layers and settings",
 "The image archive written by the image builder loads as a valid image whose layers are the base image's layers followed by the given layers in order, each uncompressing to exactly the input layer's bytes with correct digests, diff IDs, sizes and history, tagged as requested. The configuration equals the base's except for exactly the settings given: environment cleared then appended in order, entrypoint, command and working directory replaced. (Of the base's configuration, the fields the image specification defines.)",
 ["inputs","configurations"],"all base images, layer lists and flag combinations",
 "The image builder has no test.",
 ["cmd_image_build.go","pkg/fsutil/open.go"],
 [("append layers and apply config flags","cmd_image_build.go")],(),
 ["the emitted image tarball, decoded independently"])

p("C17","Two layers count as equal exactly when only timestamps differ",
 "The layer comparison answers equal exactly when both archives hold the same entries in the same order with identical metadata and contents apart from modification, access and change times, is symmetric, and returns an error (never equal) when either layer cannot be read completely. Rebuilding Go binaries with an output file leaves that file untouched when only timestamps would change, replaces it with exactly the new layer otherwise, and the layer holds each binary once under usr/local/bin owned by root.",
 ["inputs","histories","fault_sequences"],"all pairs of layers and all single differences between them; all rebuild histories",
 "No test compares layers or runs the Go build command.",
 ["pkg/fsutil/diff.go","cmd_layer_gobuild.go","pkg/gobuild/gobuild.go"],
 [("entry-wise comparison","pkg/fsutil/diff.go"),("skip rewrite when equal","cmd_layer_gobuild.go")],(),
 ["result of LayersEqualExceptTimestamps; inode, mtime and bytes of the --output file"])

p("C18","How an input file is delivered does not change the result",
 "Layer and image inputs give the same result whether they are regular files, symbolic links, named pipes or /dev/stdin, and whether layers are plain or gzip-compressed, and they can be read any number of times after being opened, with identical bytes each time. A layer written out always equals the uncompressed bytes of the layer, and missing or unreadable inputs are reported as errors naming the file.",
 ["configurations","inputs"],"all input files x delivery forms x number of reads",
 "No test opens a layer or image from a file.",
 ["pkg/fsutil/open.go","pkg/fsutil/write.go","cmd_layer_squash.go","cmd_image_build.go"],
 [("re-openable openers, one-shot inputs buffered","pkg/fsutil/open.go:PathOpener")],(),
 ["bytes produced by the CLI and by repeated reads through the opener"])

p("C19","Inspecting a Python yields a platform file that describes that Python",
 "The platform description printed by the inspector names the interpreter actually found on the (host's or image's) search path, its graphical counterpart exactly when one exists beside it, its install scheme, version (which converts to the corresponding PEP 440 version), bytecode magic and tags, the owner of the first existing scheme directory (in the order pure library, platform library, headers, scripts, data), and a host compiler with the same bytecode magic, and it is accepted unchanged as the platform file of the wheel installer. Executable lookup in an image uses the image's own PATH, working directory, symlinks and mode bits, first match wins, and inspection fails with an error when the interpreter, owner or a matching compiler cannot be found.",
 ["inputs","configurations","fault_sequences"],"all interpreters, PATH settings, image contents and failure points",
 "No test inspects a Python, and image inspection needs docker.",
 ["cmd_python_inspect.go","pkg/python/pyinspect/pyinspect.go","pkg/python/pyinspect/fs_image.go","pkg/python/pyinspect/fs_native.go"],
 [("path lookup and shebang pairing","pkg/python/pyinspect"),("platform assembly","cmd_python_inspect.go")],(),
 ["YAML printed by `ocibuild python inspect` with stand-in pythons and docker; results of LookPath, Stat, Shebangs"])

p("C20","Python file formats are interpreted as Python interprets them",
 "File modes convert between Python's and Go's representations without loss and print as Python prints them, ZIP external attributes split and join without loss with Windows attribute bits at their documented values, and INI-style configuration text parses to the same sections, keys and values (or is rejected) as Python's own parser with the same settings. (File types Go cannot express become irregular files.)",
 ["inputs"],"all 16-bit modes, 32-bit attribute words and configuration texts",
 "The suite checks one mode-printing sample and no configuration file.",
 ["pkg/python/stat.go","pkg/python/zip.go","pkg/python/configparser.go"],
 [("mode tables","pkg/python/stat.go"),("line-oriented parser","pkg/python/configparser.go:Parse")],(),
 ["results compared with CPython's stat, and configparser on the same inputs"])

p("C21","A failing step always fails the command and leaves no debris",
 "Whenever any step of a command fails (an input missing, unreadable or corrupt, output that cannot be written, an external tool missing, failing or killed, an unusable temporary directory), the command exits non-zero with a diagnostic on stderr, and it never exits zero with missing or partial output. Layers whose stream fails when opened, read or closed are reported like any other failure. No run, successful or failed (other than one killed from outside), leaves temporary files behind or modifies its inputs.",
 ["fault_sequences","crash_points","configurations"],"all commands x all single faults in inputs, outputs, external tools and temporary storage",
 "The suite runs no command and injects no fault.",
 ["main.go","cmd_layer_dir.go","cmd_layer_wheel.go","cmd_layer_gobuild.go","cmd_layer_squash.go","cmd_image_build.go","cmd_python_inspect.go","cmd_python_getwheel.go","pkg/python/py_compile.go","pkg/gobuild/gobuild.go","pkg/fsutil/write.go"],
 [("error propagation and deferred cleanup","every command's RunE"),("non-zero exit","main.go:main")],(),
 ["exit status, stdout, stderr, temporary directory and input hashes of the CLI under injected faults"])

p("C22","Concurrent use gives the same results as sequential use",
 "Independent operations (installing wheels, squashing, loading, building directory layers, compiling bytecode, comparing layers, parsing versions) may run at the same time in one process, sharing layers, platforms, compilers and hooks, with no data race and with exactly the results the same operations give when run one at a time. Operations never modify the layers, platform descriptions, version values or command lines they are given.",
 ["schedules","histories"],"all interleavings of concurrent operations sharing inputs",
 "The suite never runs two operations on shared values and is not run under the race detector.",
 ["pkg/squash/squash.go","pkg/python/py_compile.go","pkg/python/pypa/bdist/binary_distribution_format.go","pkg/python/pypa/entry_points/entry_points.go","pkg/python/pypa/recording_installs/recording_installs.go","pkg/reproducible/source_date_epoch.go"],
 [("no shared mutable state between operations","package level"),("per-call temporary directories","pkg/python/py_compile.go")],(),
 ["race detector reports; digests of results versus a sequential run; deep snapshots of shared arguments"])

p("C23","Wheel filenames and compatibility tags are understood exactly",
 "A wheel filename is accepted exactly when it has the standard shape, and parses to its distribution, version, optional build tag and compatibility tag; generating a filename escapes the name, normalizes the version, refuses parts that could not be parsed back, and parses back to the same data. Compressed tag sets expand to all combinations, a tag is supported exactly when some expansion of it is, and its preference is the position of the first installer tag it matches; build tags order numerically then lexically with absent lowest. (A number beyond 64 bits may be refused, but is never read as another number.)",
 ["inputs"],"all filenames, tag sets and installer tag lists",
 "No test covers filenames or tags.",
 ["pkg/python/pypa/bdist/binary_distribution_format.go","pkg/python/pep425/tags.go"],
 [("filename regular expression","pkg/python/pypa/bdist/binary_distribution_format.go:ParseFilename/GenerateFilename"),("tag expansion","pkg/python/pep425/tags.go")],(),
 ["results of ParseFilename, GenerateFilename, Decompress, Supports, Preference, Intersect, BuildTag.Cmp"])

p("C24","A temporarily loaded docker image is always cleaned up",
 "Using an image through docker loads exactly that image under a fresh unique tag, runs the caller's action once only after the load succeeded, and afterwards removes exactly that tag exactly once, on success and on every failure including cancellation of the context, so that no tag leaks and no docker process is left running. The first failure of loading, the action or the removal is what the caller sees, and concurrent uses never share a tag.",
 ["fault_sequences","histories","schedules"],"all outcomes of each docker command and of the action, and all cancellation points",
 "Docker is not available to the suite; its docker tests are skipped.",
 ["pkg/dockerutil/docker.go","cmd_python_inspect.go"],
 [("load, action, deferred removal","pkg/dockerutil/docker.go:WithImage")],(),
 ["trace of docker invocations recorded by a stand-in executable"])

p("C25","Command-line misuse is diagnosed and help text loses nothing",
 "Invoking any command with unknown flags, missing or malformed flag values, unknown subcommands, a missing subcommand or the wrong number of arguments writes nothing to stdout, explains the problem and how to get help on stderr, and exits with status 2 without performing the operation. Help for any command goes to stdout with status 0 and mentions every flag and subcommand, and wrapping text to a terminal width never drops, alters or reorders words, keeps the line breaks of the text and the indentation behind them, and never exceeds the width except for unbreakable words, as long as the width leaves at least 24 columns for text.",
 ["inputs","configurations"],"all argument vectors, commands, terminal widths and texts",
 "The suite renders one help template at one width and never runs the program.",
 ["pkg/cliutil/cobra.go","pkg/cliutil/cobra_tmpl.go","pkg/cliutil/wordwrap.go","pkg/cliutil/borrowed_pflag.go","pkg/cliutil/term.go","main.go"],
 [("flag error and positional wrappers","pkg/cliutil/cobra.go"),("wrapping","pkg/cliutil/borrowed_pflag.go")],(),
 ["exit status, stdout and stderr of the CLI; output of the wrapping functions"])

p("C26","Bytecode in a wheel layer is valid for the sources beside it",
 "For every Python source in a wheel layer that compiles there is bytecode at the standard cache location which Python accepts as up to date for that source: it records the installed source's modification time and size (or is unchecked as the compiler chose), refers to the source by its absolute installed path, is owned and dated like the rest of the layer, and has mode 0644 whatever the host umask. The external compiler sees exactly the given sources at their installed relative paths with their contents and times, is run once per install with the clamp time exported and with the library directories of the install before the caller's own on its PYTHONPATH, and its failure fails the install.",
 ["inputs","configurations","fault_sequences"],"all wheels, timestamps, schemes, compilers and host environments",
 "No offline test compiles anything.",
 ["pkg/python/py_compile.go","pkg/python/pypa/bdist/binary_distribution_format.go"],
 [("external compiler in a temporary tree","pkg/python/py_compile.go:ExternalCompiler")],(),
 ["what a recording stand-in compiler saw; the .pyc entries decoded and checked against the .py entries with CPython rules"])

p("C27","What goes into the pipeline is what comes out in the image",
 "However layers are produced (existing archives, plain or compressed, real directories, wheels), however runs of consecutive ones are squashed first, and on whatever base they are put, with images serving as bases of further images, the file tree of the finished image is the one obtained by applying all the ingredients one after the other: same paths, types, contents, link targets, hard-link groups, modes, owners and times. Squashing all of the finished image's layers gives that tree again, and reading the image through the library shows the same files and directory listings.",
 ["inputs","histories","configurations"],"all sequences of ingredients, groupings, bases and options, as long as no ingredient writes through a symlink of another one",
 "The suite tests each stage by itself, on a handful of inputs, and never runs the program.",
 ["cmd_layer_dir.go","cmd_layer_squash.go","cmd_layer_wheel.go","cmd_image_build.go","pkg/squash/squash.go","pkg/dir/dir.go","pkg/squash/vfs.go","pkg/fsutil/write.go","pkg/fsutil/open.go"],
 [("producing layers","pkg/dir/dir.go:LayerFromDir"),("squashing","pkg/squash/squash.go:Squash"),("appending to a base","cmd_image_build.go")],(),
 ["the tree of the image written by the program against the tree of the ingredients it was given"])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
