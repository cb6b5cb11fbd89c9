PROPS = []
def P(**k): PROPS.append(k)
TREES = "every directory tree within the bounds (shape, entry kinds and contents are symbolic)"
WHY = "The tests walk a handful of fixed trees with one fixed combination of options each; "
NAV = ["internal/kernel/navigator-agent.go", "internal/kernel/navigator-universal.go", "internal/kernel/navigator-files.go", "internal/kernel/navigator-directories.go"]

P(id="C01", title="Every subscribed entry is visited exactly once",
  statement="A prime traversal without filters, sampling, hibernation or depth limit calls the client exactly once for every entry of the tree that the subscription asks for (all entries, files only, or directories only; entries named .DS_Store are left out), including the root of the tree, and never for anything else. A directory is visited before anything beneath it, and the node given to the client says correctly whether it is a directory. The traversal then ends without error, whatever the shape of the tree, the order in which the file system lists entries and whether the file system is absolute or relative.",
  over=["inputs", "configurations"], quant="For " + TREES + ", each subscription, files-first or not, either listing order, absolute or relative file system.",
  why=WHY + "the guarantee is over all tree shapes and subscriptions.",
  files=NAV + ["internal/kernel/contents.go", "pref/defaults.go", "internal/kernel/mediator.go"],
  mech=[("navigator selection", "internal/kernel/navigator-factory.go"), ("travel loop over sorted contents", "internal/kernel/navigator-agent.go"), ("default read-directory hook", "pref/defaults.go")],
  runs=[
   dict(entry="H_C01", what="exactly-once, parents first, kinds, no error", bounds="kids per directory, directory depth, entries in total", reach=["end"],
        quick=[dict(kids=2, depth=2, nodes=4), dict(kids=3, depth=3, nodes=5, budget_s=60), dict(kids=2, depth=1, nodes=2, wide=70), dict(kids=2, depth=1, nodes=2, deep=20), dict(kids=1, depth=1, nodes=1, wide=260), dict(kids=1, depth=1, nodes=1, deep=260)], thorough=[dict(kids=4, depth=4, nodes=6, budget_s=1500), dict(kids=5, depth=5, nodes=7, budget_s=3000), dict(kids=2, depth=2, nodes=3, wide=70, budget_s=600), dict(kids=2, depth=2, nodes=3, deep=60, budget_s=600), dict(kids=1, depth=1, nodes=1, wide=1100, budget_s=900)]),
   dict(entry="H_C01_hidden", what="only .DS_Store is hidden", bounds="as above; names from a set of near misses",
        quick=[dict(kids=2, depth=1, nodes=3)], thorough=[dict(kids=3, depth=2, nodes=4, budget_s=1500)])],
  outside="larger trees; trees that change meanwhile; symbolic links are entries that are not directories")

P(id="C02", title="Siblings are visited in the documented order",
  statement="The entries of a directory are visited directories before files, or files before directories when the sort behaviour asks for files first, and within each kind in ascending name order: ignoring letter case by default, by exact bytes when the case-sensitive option or case-sensitive hook is used. The traversal is depth first: everything beneath a directory is visited before that directory's next sibling. The order does not depend on the order in which the file system lists the entries.",
  over=["inputs", "configurations"], quant="For every set of sibling names over the character set within the length bound, every listing order, every subscription and sort option.",
  why=WHY + "the order is a relation over all pairs of names, whose letters are unknowns here.",
  files=["pref/defaults.go", "internal/kernel/contents.go", "pref/options.go", "pref/options-hooks.go"],
  mech=[("sort hook", "pref/defaults.go"), ("contents arrangement", "internal/kernel/contents.go")],
  runs=[
   dict(entry="H_C02", what="pairwise order of symbolic names", bounds="siblings, name length in bytes (ASCII letters, digits, '_', '.', '-', space), after a prefix of so many times six letters; exotic: names from a set of twelve (not ASCII, not UTF-8, numbers) instead; each walked with both listing orders", reach=["end"],
        quick=[dict(kids=2, nodes=2, len=2), dict(kids=3, nodes=3, len=1, budget_s=60), dict(kids=2, nodes=2, len=3), dict(kids=2, nodes=2, len=1, prefix=8), dict(kids=2, nodes=2, depth=1, exotic=1), dict(kids=3, nodes=3, depth=0, exotic=1, budget_s=90)], thorough=[dict(kids=3, nodes=3, len=2, budget_s=2400), dict(kids=3, nodes=3, depth=1, exotic=1, budget_s=1800)]),
   dict(entry="H_C02_nested", what="depth-first preorder", bounds="kids, directory depth, entries in total", reach=["end"],
        quick=[dict(kids=2, depth=3, nodes=4), dict(kids=3, depth=3, nodes=5, budget_s=60), dict(kids=2, depth=2, nodes=3, wide=40), dict(kids=2, depth=2, nodes=3, deep=12)], thorough=[dict(kids=4, depth=4, nodes=7, budget_s=3000), dict(kids=2, depth=2, nodes=4, wide=100, budget_s=600), dict(kids=2, depth=2, nodes=4, deep=40, budget_s=600)])],
  outside="longer names; names that are not ASCII other than the twelve")

P(id="C03", title="Depth limit bounds the traversal exactly",
  statement="With a depth limit D greater than zero, exactly the entries at distance D or less from the root are reached, in the same order as without the limit; a limit of zero means no limit and no-recurse is the same as a limit of one. Descend and ascend notifications are issued for exactly the entries that are reached. Every visited node reports its own distance from the root as its depth.",
  over=["inputs", "configurations"], quant="For every unsigned limit (symbolic, all 64 bits), " + TREES + ", each subscription.",
  why=WHY + "one or two depth values are tried.",
  files=["internal/level/periscope.go", "internal/kernel/navigator-agent.go", "pref/options.go"],
  mech=[("depth tracking", "internal/level/periscope.go"), ("depth check in travel", "internal/kernel/navigator-agent.go")],
  runs=[dict(entry="H_C03", what="reached set equals the depth-limited tree", bounds="kids, directory depth, entries in total; far: limits not less than this (or none) only", reach=["end"],
        quick=[dict(kids=2, depth=3, nodes=4), dict(kids=2, depth=3, nodes=5, budget_s=60), dict(kids=2, depth=2, nodes=2, wide=40), dict(kids=2, depth=2, nodes=3, deep=12), dict(kids=1, depth=1, nodes=1, deep=260, far=256, budget_s=120)], thorough=[dict(kids=3, depth=4, nodes=6, budget_s=3000), dict(kids=2, depth=2, nodes=3, wide=70, budget_s=600), dict(kids=2, depth=2, nodes=4, deep=40, budget_s=600)])],
  outside="larger trees")

P(id="C04", title="Skip requests and errors from the client steer the traversal",
  statement="When the client returns SkipDir (wrapped or not) for a directory, nothing beneath that directory is visited and the traversal goes on after it; for a file, the remaining entries of its directory are skipped; when it returns SkipAll, nothing further is visited; in each case the traversal reports no error. Any other error returned by the client ends the traversal at once and is returned to the caller, still identifiable as the client's error. Descend and ascend notifications stay balanced and the invocation counts equal the number of client calls made.",
  over=["inputs", "configurations"], quant="For " + TREES + ", and every combination of responses by the client at each node.",
  why=WHY + "the responses of the client at every node are unknowns here.",
  files=NAV + ["driver.go"],
  mech=[("travel's treatment of errors", "internal/kernel/navigator-agent.go"), ("normalisation at the top", "driver.go")],
  runs=[dict(entry="H_C04", what="visits, error and counts against the reference traversal", bounds="kids, directory depth, entries in total", reach=["end", "error", "skipall"],
        quick=[dict(kids=2, depth=2, nodes=3), dict(kids=3, depth=2, nodes=3, budget_s=60), dict(kids=2, depth=2, nodes=2, wide=40), dict(kids=2, depth=2, nodes=2, deep=12)], thorough=[dict(kids=3, depth=3, nodes=4, budget_s=1500), dict(kids=3, depth=3, nodes=5, budget_s=3000), dict(kids=2, depth=2, nodes=3, wide=70, budget_s=600), dict(kids=2, depth=2, nodes=3, deep=40, budget_s=600)])],
  outside="larger trees")

P(id="C10", title="Lifecycle notifications bracket the traversal",
  statement="Every prime traversal announces its beginning, with the tree being walked, before anything else and its end, with the result, after everything else, each exactly once per registered listener. Each reached node is announced by a descend notification and, after its callback and everything beneath it, by an ascend notification, so that the notifications nest like brackets following the tree. All registered listeners are called, in the order of registration, also when the client cuts the traversal short.",
  over=["inputs", "configurations"], quant="For " + TREES + ", up to eight listeners for each event, every depth limit and every response of the client at each node.",
  why=WHY + "the nesting must hold on every exit path.",
  files=["life/events.go", "internal/kernel/navigator-agent.go", "driver.go", "session.go", "internal/kernel/guardian.go"],
  mech=[("event dispatch", "life/events.go"), ("descend/ascend in travel", "internal/kernel/navigator-agent.go"), ("begin and end", "driver.go")],
  runs=[dict(entry="H_C10", what="event log parsed against the tree", bounds="kids, directory depth, entries in total", reach=["end"],
        quick=[dict(kids=2, depth=2, nodes=1, many=8), dict(kids=2, depth=2, nodes=3, budget_s=90), dict(kids=2, depth=2, nodes=1, wide=40, many=3), dict(kids=2, depth=2, nodes=1, deep=12, many=3), dict(kids=1, depth=1, nodes=1, deep=260, many=1)], thorough=[dict(kids=2, depth=2, nodes=2, many=12, budget_s=600), dict(kids=3, depth=3, nodes=4, budget_s=3000), dict(kids=2, depth=2, nodes=2, wide=70, many=3, budget_s=600), dict(kids=2, depth=2, nodes=2, deep=40, many=3, budget_s=600)])],
  outside="larger trees; more than eight listeners (twelve in the thorough tier); more than three with more than one entry")

P(id="C05", title="Faults of the file system do not derail the traversal",
  statement="A directory that cannot be read counts as having no entries and disturbs nothing else: it is itself still visited, the rest of the tree is visited in the usual order and no error is reported. An entry whose details cannot be had is still visited, with the error recorded on its node. The skip handler is asked once about each directory reached (after its callback), with that directory's files and directories and the error met reading it, if any; when it answers skip-all the traversal ends there without error, when it answers skip-dir nothing beneath that directory is visited; an error given along with a request to skip ends the traversal and is returned. When the tree itself cannot be queried, no entry is visited and the traversal returns what the fault handler makes of the error (by default, the error), having given the handler the path and the error; the end of the traversal is still announced.",
  over=["inputs", "fault_sequences", "configurations"], quant="For " + TREES + ", every combination of unreadable directories and entries without details, every sequence of answers of the skip handler, each subscription.",
  why=WHY + "faults at each directory and the handler's answers are unknowns here.",
  files=NAV + ["pref/defects.go", "pref/defaults.go", "core/node.go"],
  mech=[("skip handler consulted after reading", "internal/kernel/navigator-universal.go"), ("fault handler", "internal/kernel/navigator-agent.go")],
  runs=[
   dict(entry="H_C05", what="unreadable directories and entries without info", bounds="kids per directory, directory depth, entries in total", reach=["end"],
        quick=[dict(kids=2, depth=2, nodes=3), dict(kids=2, depth=3, nodes=4, budget_s=60), dict(kids=2, depth=2, nodes=2, wide=40), dict(kids=2, depth=2, nodes=2, deep=12)], thorough=[dict(kids=3, depth=3, nodes=5, budget_s=2400), dict(kids=2, depth=2, nodes=3, wide=70, budget_s=600), dict(kids=2, depth=2, nodes=3, deep=40, budget_s=600)]),
   dict(entry="H_C04_ask", what="skip handler's answers against the reference traversal", bounds="as above", reach=["end"],
        quick=[dict(kids=2, depth=2, nodes=3), dict(kids=2, depth=2, nodes=4, budget_s=60), dict(kids=2, depth=2, nodes=2, wide=40), dict(kids=2, depth=2, nodes=2, deep=12)], thorough=[dict(kids=3, depth=3, nodes=5, budget_s=2400), dict(kids=2, depth=2, nodes=3, wide=70, budget_s=600), dict(kids=2, depth=2, nodes=3, deep=40, budget_s=600)]),
   dict(entry="H_C05_err", what="errors from the skip handler", bounds="as above", reach=["end", "bad"],
        quick=[dict(kids=2, depth=2, nodes=3), dict(kids=2, depth=2, nodes=4, budget_s=60), dict(kids=2, depth=2, nodes=2, wide=40), dict(kids=2, depth=2, nodes=2, deep=12)], thorough=[dict(kids=3, depth=3, nodes=5, budget_s=2400), dict(kids=2, depth=2, nodes=3, wide=70, budget_s=600), dict(kids=2, depth=2, nodes=3, deep=40, budget_s=600)]),
   dict(entry="H_C05_stat", what="fault handler", bounds="a tree of at most two entries", reach=["end"],
        quick=[dict()], thorough=[dict()])],
  outside="larger trees; directories that yield some entries and an error")

P(id="C06", title="Filters decide about callbacks and nothing else",
  statement="A node filter, whatever it decides for each entry, only decides whether the client is called for that entry: the entries reached, their order, the depth limit, the descend and ascend notifications and the effect of the client's skip requests are those of the same traversal without the filter, in which the filtered out entries get no callback. A directory that is filtered out is still descended into. The filtered-out counts equal the subscribed entries the filter rejected.",
  over=["inputs", "configurations"], quant="For " + TREES + ", every verdict of a client-defined filter at each node, every response of the client, every depth limit and subscription.",
  why=WHY + "the filter's verdict at each node is an unknown here.",
  files=["internal/feat/filter/filter-plugin.go", "internal/feat/filter/scheme-custom.go", "internal/feat/filter/scheme-hybrid.go", "internal/kernel/guardian.go"],
  mech=[("invocation chain", "internal/kernel/guardian.go"), ("filter link", "internal/feat/filter/scheme-custom.go")],
  runs=[dict(entry="H_C06", what="gated traversal against the reference traversal", bounds="kids, directory depth, entries in total", reach=["end"],
        quick=[dict(kids=2, depth=2, nodes=3), dict(kids=2, depth=3, nodes=4, acts=0, budget_s=60), dict(kids=2, depth=2, nodes=2, wide=40), dict(kids=2, depth=2, nodes=2, deep=12)], thorough=[dict(kids=3, depth=3, nodes=4, budget_s=2400), dict(kids=3, depth=3, nodes=5, acts=0, budget_s=2400), dict(kids=2, depth=2, nodes=3, wide=70, budget_s=600), dict(kids=2, depth=2, nodes=3, deep=40, budget_s=600)])],
  outside="larger trees")

P(id="C07", title="Node filters match what their definition describes",
  statement="A glob filter lets an entry through when its whole name matches the pattern, a regex filter when the expression occurs in its name; an extended glob filter applies to files, whose directory's name has to match the part before the separator (case not considered, with an exclusion after '/'), and which pass when one of the listed file patterns matches the name regardless of case, a pattern whose extension is prefixed with '!' accepting all but what it matches. A poly filter applies its file definition to each file and its directory definition to the file's directory, and lets directories through. Negate inverts the verdict. A definition only applies to entries of its scope (file, directory, tree, top, leaf, intermediate, or any combination; none given means all); entries out of scope pass unless if-not-applicable is false. The sink receives the filter with its source and description. A node or child definition without a pattern (and without poly parts), whatever else it says, filters nothing.",
  over=["inputs", "configurations"], quant="For every entry name over the character set within the length bound, every scope combination, negation and if-not-applicable setting, a set of patterns of each kind, and " + TREES + ".",
  why=WHY + "names, scopes and flags are unknowns here.",
  files=["internal/filtering/glob.go", "internal/filtering/regex.go", "internal/filtering/glob-ex.go", "internal/filtering/poly.go", "internal/filtering/base.go", "internal/filtering/builders.go", "enums/filter-scope-en.go"],
  mech=[("matching", "internal/filtering/glob.go"), ("applicability", "internal/filtering/base.go"), ("scope of a node", "internal/kernel/extend.go")],
  runs=[
   dict(entry="H_C07", what="glob and regex filters", bounds="kids, directory depth, entries, name length; the patterns listed in harness/c_filter.go", reach=["end"],
        quick=[dict(nodes=1), dict(nodes=2, len=1, budget_s=60), dict(nodes=2, len=2, budget_s=60)], thorough=[dict(nodes=2, len=2, budget_s=1500), dict(nodes=3, len=1, kids=3, depth=3, budget_s=2400)]),
   dict(entry="H_C07_ex", what="extended glob filters", bounds="as above", reach=["end"],
        quick=[dict(nodes=1), dict(nodes=2, sub=1), dict(nodes=2, kids=2, len=2, budget_s=60)], thorough=[dict(nodes=3, kids=2, depth=2, sub=1, budget_s=2400), dict(nodes=1, len=5, budget_s=1200)]),
   dict(entry="H_C07_none", what="definitions without a pattern against no definitions", bounds="kids, directory depth, entries", reach=["end"],
        quick=[dict(nodes=2)], thorough=[dict(nodes=4, budget_s=900)]),
   dict(entry="H_C07_poly", what="poly filters", bounds="as above", reach=["end"],
        quick=[dict(), dict(nodes=3, depth=3, budget_s=60)], thorough=[dict(nodes=3, kids=3, depth=3, budget_s=2400)])],
  outside="patterns other than those listed, longer and non-ASCII names",
  assumptions=["regular expressions with symbolic subjects are decided by this checker's own translation of regexp/syntax programs to SMT, validated against the regexp package natively when a counterexample is replayed"])

P(id="C08", title="Directories-with-files hands each directory its files",
  statement="With the directories-with-files subscription the client is called for directories only, and each directory's node carries exactly the files directly inside it, in name order whatever the order of the file system's listing, also when a node filter is active. A child filter (glob or regex, possibly negated) reduces them to those whose name it matches, and changes nothing else. The counts of child files found and filtered out add up over the directories visited.",
  over=["inputs", "configurations"], quant="For " + TREES + ", either listing order, every verdict of a node filter and every name over the character set for child filters.",
  why=WHY + "it must hold at every directory, under every combination with a node filter.",
  files=["internal/feat/nanny/nanny-plugin.go", "internal/feat/filter/scheme-nanny.go", "internal/feat/filter/scheme-hybrid.go", "internal/filtering/child.go"],
  mech=[("children assigned", "internal/feat/filter/scheme-nanny.go"), ("nanny", "internal/feat/nanny/nanny-plugin.go")],
  runs=[dict(entry="H_C08", what="children of each directory", bounds="kids, directory depth, entries in total", reach=["end"],
        quick=[dict(), dict(kids=3, depth=2, nodes=4, budget_s=60), dict(kids=2, depth=2, nodes=2, wide=40), dict(kids=2, depth=2, nodes=2, deep=12)], thorough=[dict(kids=3, depth=3, nodes=5, budget_s=2400), dict(kids=2, depth=2, nodes=3, wide=70, budget_s=600), dict(kids=2, depth=2, nodes=3, deep=40, budget_s=600)])],
  outside="larger trees; a sample filter in the same traversal")

P(id="C09", title="Metrics are exact",
  statement="The metrics of the result, and of the result announced at the end, are exactly what happened: files and directories invoked are the client's calls, filtered out are the subscribed entries a node filter rejected (or a sample filter, if it rejects the tree), child files found and filtered out are those of the directories visited by directories-with-files; every other count is zero. This holds however the traversal ends. Each traversal counts from zero, also when options and filters are shared with an earlier one. A prime traversal's session reports itself complete.",
  over=["inputs", "configurations", "histories"], quant="For " + TREES + " (the tree may also be a file), each subscription with and without node and child filters, every verdict, depth limit and response of the client, two traversals in succession.",
  why=WHY + "exactness on every exit path is out of reach of examples.",
  files=["internal/enclave/supervisor.go", "core/metrics.go", "internal/kernel/guardian.go", "internal/feat/filter/filter-plugin.go"],
  mech=[("metrics registry", "internal/enclave/supervisor.go"), ("ticks", "internal/kernel/guardian.go")],
  runs=[dict(entry="H_C09", what="six metrics against the observed calls", bounds="kids, directory depth, entries in total", reach=["end"],
        quick=[dict(), dict(kids=2, depth=2, nodes=4, budget_s=90), dict(kids=3, depth=0, nodes=4, plain=1, budget_s=90), dict(kids=2, depth=2, nodes=1, wide=40), dict(kids=2, depth=2, nodes=1, deep=12)], thorough=[dict(kids=3, depth=3, nodes=4, budget_s=3000), dict(kids=6, depth=1, nodes=7, plain=1, budget_s=1500), dict(kids=2, depth=2, nodes=2, wide=300, budget_s=600), dict(kids=2, depth=2, nodes=2, deep=40, budget_s=600)])],
  outside="larger trees; sampling, whose metrics are not documented")

P(id="C11", title="Hibernation delimits what the client sees",
  statement="With a wake condition the client is first called at the first subscribed entry that meets it (or right after it, when wake is exclusive); with a sleep condition the client is last called right before the first entry, once awake, that meets it (or at it, when sleep is inclusive), and the traversal then ends without error; without a wake condition the client is called from the start. Between those points it is called exactly as it would be without hibernation, including by a node filter given at the same time. Wake and sleep are each notified once, with the description of the condition, and only when they happen.",
  over=["inputs", "configurations"], quant="For " + TREES + " with symbolic names, conditions given as glob, regex or poly definitions, separately or together, through individual options or as a whole, all inclusive/exclusive settings, and every verdict of a client's filter.",
  why=WHY + "the position of the wake and sleep points among all orders and names is symbolic here.",
  files=["internal/feat/hiber/hibernate-simple-profile.go", "internal/feat/hiber/hibernate-plugin.go", "pref/options-hibernate.go", "internal/filtering/builders.go"],
  mech=[("hibernation profile and states", "internal/feat/hiber/hibernate-simple-profile.go"), ("options", "pref/options-hibernate.go")],
  runs=[dict(entry="H_C11", what="calls and notifications against the reference", bounds="kids, directory depth, entries; deep=1: any scope, negation and if-not-applicable", reach=["end"],
        quick=[dict(nodes=2), dict(nodes=3, gate=0, budget_s=60), dict(nodes=1, deep=1, gate=0, budget_s=60), dict(kids=2, depth=2, nodes=1, wide=40), dict(kids=2, depth=2, nodes=1, deep=12)], thorough=[dict(nodes=3, budget_s=1500), dict(nodes=2, deep=1, gate=0, budget_s=2400), dict(kids=2, depth=2, nodes=2, wide=40, budget_s=900), dict(kids=2, depth=2, nodes=2, deep=40, budget_s=900)])],
  outside="larger trees, longer names")

P(id="C12", title="Sampling takes the first or last so many of each directory",
  statement="With sampling, only the first (or, in reverse, the last) so many files and so many directories of each directory's listing take part in the traversal; zero means no limit on that kind. With a sample filter (glob, regex or client-defined; negatable), the entries that do not pass are taken out before counting; the filter concerns files, directories or both according to its scope (none means both), and when it rejects the tree itself the client is not called for the tree, which counts as filtered out. With directories-with-files, the files handed out with a directory, and counted, are those that take part. A limit of zero for a kind the filter is scoped to is rejected with the matching error before anything is visited. What takes part is visited in the usual order; errors reading a directory are reported as without sampling.",
  over=["inputs", "configurations", "fault_sequences"], quant="For " + TREES + ", all unsigned limits (symbolic), both directions and listing orders, each subscription, sample filters over symbolic names.",
  why=WHY + "limits are symbolic 64 bit values, and the listing is any tree.",
  files=["internal/feat/sampling/controller.go", "internal/filtering/sample.go", "internal/filtering/glob.go", "internal/filtering/regex.go", "internal/feat/filter/scheme-sampler.go"],
  mech=[("sampling of a listing", "internal/feat/sampling/controller.go"), ("sample filters", "internal/filtering/sample.go")],
  runs=[
   dict(entry="H_C12", what="sampled traversal against the reference", bounds="kids, directory depth, entries in total", reach=["end"],
        quick=[dict(), dict(kids=4, depth=2, nodes=4, budget_s=60), dict(kids=2, depth=2, nodes=0, wide=20), dict(kids=2, depth=2, nodes=1, deep=12)], thorough=[dict(kids=4, depth=3, nodes=5, budget_s=2400), dict(kids=2, depth=2, nodes=2, wide=40, budget_s=900), dict(kids=2, depth=2, nodes=2, deep=40, budget_s=900)]),
   dict(entry="H_C12_filter", what="sample filters", bounds="as above", reach=["end"],
        quick=[dict(), dict(kids=3, nodes=3, budget_s=90), dict(kids=2, depth=2, nodes=0, wide=14), dict(kids=2, depth=2, nodes=1, deep=12)], thorough=[dict(kids=3, depth=2, nodes=3, budget_s=3000), dict(kids=2, depth=2, nodes=2, wide=40, budget_s=900), dict(kids=2, depth=2, nodes=2, deep=40, budget_s=900)])],
  outside="larger trees; combination with other filters (see C31)")

P(id="C13", title="Every node describes its entry",
  statement="The node given to the client and to the notifications is the same one for an entry throughout, and tells the truth about it: its path, whether it is a directory, its entry and file information (or the error met getting it), its parent being the node of the directory that contains it; its name and parent path, its depth (the tree being 0), its scope (tree at depth 0, top at depth 1, leaf for a directory without subdirectories and for a file, intermediate otherwise, together with file or directory), and its sub-path: the part of the path between the tree and the entry, with its trailing separator kept or not as configured, however the path of the tree is written (with a trailing separator, as `.`, `./a`, `a//b` or `a/../b`).",
  over=["inputs", "configurations"], quant="For " + TREES + ", absolute and relative trees of one or more segments, ASCII and non-ASCII names, each subscription and sub-path setting.",
  why=WHY + "the description must be right at every position of every tree.",
  files=["internal/kernel/extend.go", "internal/level/periscope.go", "core/node.go", "pref/defaults.go"],
  mech=[("node extension", "internal/kernel/extend.go"), ("scope and depth", "internal/level/periscope.go"), ("sub-path", "pref/defaults.go")],
  runs=[dict(entry="H_C13", what="all fields against the tree", bounds="kids, directory depth, entries in total; more: the number of ways in which the path of the tree is written (5 unless given)", reach=["end"],
        quick=[dict(), dict(kids=2, depth=4, nodes=4, budget_s=90), dict(kids=2, depth=2, nodes=1, wide=40), dict(kids=2, depth=2, nodes=1, deep=12), dict(kids=2, depth=2, nodes=2, more=12), dict(kids=1, depth=1, nodes=1, deep=260, few=1, budget_s=120)], thorough=[dict(kids=3, depth=3, nodes=3, more=12, budget_s=900), dict(kids=3, depth=4, nodes=5, budget_s=3000), dict(kids=2, depth=2, nodes=2, wide=40, budget_s=600), dict(kids=2, depth=2, nodes=2, deep=40, budget_s=600)])],
  outside="larger trees")

P(id="C14", title="Hooks replace and chain as documented",
  statement="A tapped hook (read directory, query status, sort, file sub-path, directory sub-path) is used instead of the default; listeners chained to a hook are called after it, in the order in which they were chained, each receiving the result of the one before, and the last result (entries and error) is what the traversal uses. The read hook is used exactly once per directory reached, the status hook once per traversal; the file and directory sub-path hooks are used for files and directories respectively.",
  over=["inputs", "configurations"], quant="For each hook, tapped or not, with up to the bound of chained listeners, every behaviour of each party (dropping entries, raising or clearing errors, permuting entries), on " + TREES + ".",
  why=WHY + "the behaviour of each party at each directory is an unknown here.",
  files=["tapable/hooks.go", "tapable/broadcasters.go", "pref/options-hooks.go", "internal/kernel/navigation-fs.go"],
  mech=[("hook control", "tapable/hooks.go"), ("broadcast along the chain", "tapable/broadcasters.go")],
  runs=[
   dict(entry="H_C14_read", what="read directory hook", bounds="kids, directory depth, entries; listeners", reach=["end"],
        quick=[dict(), dict(nodes=1, listeners=3, budget_s=60), dict(kids=2, depth=2, nodes=1, wide=40), dict(kids=2, depth=2, nodes=1, deep=12)], thorough=[dict(nodes=3, listeners=2, budget_s=2400), dict(kids=2, depth=2, nodes=2, wide=40, budget_s=900), dict(kids=2, depth=2, nodes=2, deep=40, budget_s=900)]),
   dict(entry="H_C14_sort", what="sort hook", bounds="up to three files; listeners", reach=["end"],
        quick=[dict(listeners=3)], thorough=[dict(listeners=5)]),
   dict(entry="H_C14_status", what="query status hook", bounds="listeners", reach=["end"],
        quick=[dict(listeners=3)], thorough=[dict(listeners=5)]),
   dict(entry="H_C14_subpath", what="sub-path hooks", bounds="up to two entries; listeners", reach=["end"],
        quick=[dict(listeners=3)], thorough=[dict(listeners=5)])],
  outside="tapping a hook after chaining to it, which is documented as making no sense")

RES = ["internal/feat/resume/controller.go", "internal/feat/resume/resume-defs.go", "internal/feat/resume/resume-plugin.go", "internal/persist/marshaler.go"]
P(id="C15", title="A panic ends the traversal in an orderly way and is saved",
  statement="When the client, the skip handler, the read-directory hook or a descend listener panics, nothing more is visited, every directory announced as entered is announced as left, the end is announced once, and Navigate returns an error that says a panic occurred instead of letting the panic through. The session is saved in exactly one file, which its owner may read and write, in the resume directory (usable by its owner) beneath the admin path (the admin path itself, if it ends with that directory), whose name says it is a prime session, and the error carries the file's path; if the storage refuses, the error says that the session was not saved and why. A panic handler given by the client is asked once, with the payload of the panic, and its answer (a path or an error) is what the error reports. Without a panic nothing is written.",
  over=["inputs", "configurations", "fault_sequences"], quant="For " + TREES + ", every place at which the panic can occur, payloads that are errors, strings or the library's own skip signals, failures creating the directory or writing the file, each subscription, and every kind of panic handler.",
  why=WHY + "the point of the panic is an unknown here, at every node of every tree.",
  files=["internal/kernel/navigator-agent.go", "internal/kernel/author.go", "internal/kernel/vex.go", "pref/defects.go", "locale/messages-errors.go"],
  mech=[("rescue", "internal/kernel/navigator-agent.go"), ("saving the session", "internal/kernel/author.go"), ("panic handler", "pref/defects.go")],
  runs=[dict(entry="H_C15", what="visits, notifications, error and storage after the panic", bounds="kids, directory depth, entries in total; admins: number of admin paths tried", reach=["end", "calm"],
        quick=[dict(kids=2, depth=2, nodes=1, admins=7), dict(kids=2, depth=2, nodes=2), dict(budget_s=90), dict(kids=2, depth=2, nodes=1, wide=40), dict(kids=2, depth=2, nodes=1, deep=12)], thorough=[dict(kids=2, depth=2, nodes=2, admins=7), dict(kids=3, depth=3, nodes=4, budget_s=1500), dict(kids=3, depth=4, nodes=5, budget_s=3000), dict(kids=2, depth=2, nodes=2, wide=40, budget_s=900), dict(kids=2, depth=2, nodes=2, deep=40, budget_s=900)])],
  outside="larger trees; panics on the goroutines of a concurrent traversal; run-time exhaustion (stack, memory)")

def resume_runs(entry):
    return [dict(entry=entry, what="calls after resuming against the rest of the uninterrupted traversal, and the loaded state", bounds="kids, directory depth, entries; sites: where the panic comes from; trees: ways of writing the tree's path; acts: the client may skip or fail while resumed; rounds: times interrupted; with: 1 a node or child filter, 2 hibernation, 3 sampling; faults: 1 directories that cannot be read, 2 and entries whose details cannot be had, in both sessions", reach=["end"],
        quick=[dict(), dict(trees=1, nodes=3, acts=1, budget_s=90), dict(trees=1, nodes=3, rounds=3, budget_s=90), dict(trees=1, nodes=2, sites=4, budget_s=60), dict(trees=1, nodes=2, **{"with": 1}, budget_s=90), dict(trees=1, nodes=2, sites=4, **{"with": 1}, budget_s=90), dict(trees=1, nodes=3, **{"with": 2}, budget_s=60), dict(trees=1, kids=3, nodes=3, **{"with": 3}, budget_s=60), dict(trees=1, nodes=4, depth=3, budget_s=90), dict(trees=1, nodes=2, wide=40), dict(trees=1, nodes=2, acts=1, deep=12), dict(trees=1, nodes=2, faults=1), dict(trees=1, nodes=1, faults=2)],
        thorough=[dict(trees=1, nodes=3, faults=1, budget_s=900), dict(trees=1, nodes=2, faults=2, budget_s=900), dict(trees=1, nodes=2, acts=1, wide=70, budget_s=900), dict(trees=1, nodes=3, acts=1, deep=40, budget_s=900), dict(kids=3, depth=3, nodes=4, budget_s=2400), dict(trees=1, nodes=4, depth=3, acts=1, budget_s=2400), dict(trees=1, nodes=4, depth=3, rounds=2, budget_s=2400), dict(trees=3, nodes=3, sites=4, budget_s=1500), dict(trees=1, nodes=3, sites=4, **{"with": 1}, budget_s=1500), dict(trees=1, nodes=4, **{"with": 2}, budget_s=1500), dict(trees=1, kids=4, nodes=4, **{"with": 3}, budget_s=1500), dict(trees=1, nodes=5, depth=4, budget_s=2400)])]
RESUMED = "The rest of the traversal (all entries that come after it in navigation order, it included, with the same subscription, sort order, depth limit, node filter, child filter, sampling and hibernation, which are restored from the saved session) is visited, exactly once, in the usual order and with the usual names, depths, scopes and sub-paths, and nothing that had been visited before is. The client's skip requests and errors steer the resumed traversal as they would an uninterrupted one, and it ends without error otherwise. Add-ons are told the loaded state: the current path and whether it is a directory, the tree, the subscription, the depth and whether the file system is relative. A resumed traversal that is interrupted is saved, as a resume session, and can itself be resumed with the same effect. Entries the filter rejects and entries outside the hibernation period are passed over, and directories with files come with the files the child filter lets through, as in the uninterrupted traversal. The saved metrics count the client's calls and the child files found until then; "

P(id="C18", title="Fast forward continues an interrupted traversal where it stopped",
  statement="Resuming a saved session with the fast forward strategy continues at the entry at which the session stopped. " + RESUMED + "a fast forward counts its own calls. Listeners hear nothing of what is passed over, nor of the beginning, and everything from the entry on at which the session continues: descents, ascents and, last, the end with the result.",
  over=["inputs", "configurations", "histories", "crash_points"], quant="For " + TREES + ", each subscription, either listing order, files-first or not, depth limits 0 to 3, absolute and relative file systems, every entry at which the panic occurs, and every response of the client afterwards.",
  why=WHY + "resuming is tested from hand-written session files for a few positions; here the session is saved by the library at every position of every tree.",
  files=RES + ["internal/feat/resume/strategy-fastward.go", "internal/kernel/navigator-agent.go", "internal/kernel/author.go"],
  mech=[("fast forward decorator", "internal/feat/resume/strategy-fastward.go"), ("session saved", "internal/kernel/author.go"), ("session loaded", "internal/feat/resume/controller.go")],
  runs=resume_runs("H_C18"),
  outside="larger trees; trees that change between the sessions; other filters than glob; hibernation of a session that panics outside the client's handler; custom and filtered sampling in the saved session; metrics of filtering")

P(id="C19", title="Spawn continues an interrupted traversal where it stopped",
  statement="Resuming a saved session with the spawn strategy continues at the entry at which the session stopped, without navigating what had been visited. " + RESUMED + "a spawn continues counting from there. Listeners are told the beginning, with the tree, the descents and ascents of exactly the entries that are navigated now, and, last, the end with the result.",
  over=["inputs", "configurations", "histories", "crash_points"], quant="For " + TREES + ", each subscription, either listing order, files-first or not, depth limits 0 to 3, absolute and relative file systems, every entry at which the panic occurs, and every response of the client afterwards.",
  why=WHY + "resuming is tested from hand-written session files for a few positions; here the session is saved by the library at every position of every tree.",
  files=RES + ["internal/feat/resume/strategy-spawn.go", "internal/kernel/mediator.go", "internal/kernel/navigator-agent.go", "internal/kernel/author.go"],
  mech=[("siblings that follow", "internal/feat/resume/strategy-spawn.go"), ("session saved", "internal/kernel/author.go"), ("session loaded", "internal/feat/resume/controller.go")],
  runs=resume_runs("H_C19"),
  outside="larger trees; trees that change between the sessions; other filters than glob; hibernation of a session that panics outside the client's handler; custom and filtered sampling in the saved session; metrics of filtering; nodes' parents while resuming")

PER = ["internal/persist/marshaler.go", "internal/persist/json-options.go", "internal/persist/comparison.go"]
P(id="C16", title="A saved session restores its options and state",
  statement="Every setting that is persisted (sub-path, sort and cascade behaviours; sampling type, direction and quantities; node, child and sample filter definitions, poly definitions included; hibernation conditions and behaviour; number of workers) has, after the session is saved and loaded, the value it had, and so have all parts of the active state: tree, kind of file systems, subscription, hibernation, current path and whether it is a directory, depth, and the metrics. The session of an interrupted traversal holds the options it ran with and the client's calls made so far.",
  over=["inputs", "configurations"], quant="For all values of all persisted settings at once (64 bit numbers, enumerations including undefined values, texts within the length bound, presence or absence of every definition), and " + TREES + " for the interrupted traversal.",
  why="The tests set one field at a time to one value; here all fields are unknowns at once, so that a field dropped, swapped or defaulted shows for some value.",
  files=PER + ["internal/kernel/author.go", "internal/kernel/navigation-vapour.go", "internal/opts/json/filter-options.go", "core/core-defs.go"],
  mech=[("conversion", "internal/persist/json-options.go"), ("saving and loading", "internal/persist/marshaler.go")],
  runs=[
   dict(entry="H_C16", what="all persisted values, saved and loaded", bounds="len: text length; polys: nesting of poly definitions", reach=["end"],
        quick=[dict(len=4), dict(len=1, raw=1), dict(polys=2, budget_s=60)], thorough=[dict(polys=2, len=8, budget_s=2400), dict(polys=3, len=1, few=1, budget_s=3000)]),
   dict(entry="H_C16_session", what="options and state of an interrupted traversal", bounds="entries in total", reach=["end"],
        quick=[dict(nodes=1, budget_s=60), dict(budget_s=90)], thorough=[dict(nodes=4, budget_s=2400)])],
  outside="non-ASCII texts; the byte-level format of JSON, which is modelled as a tree of values (natively replayed paths use the real encoder)")

P(id="C17", title="Settings that differ from their persisted form are told apart",
  statement="The comparison that guards saving and loading reports no error exactly when every persisted setting of the options equals its persisted form, and otherwise an error that is the unequal-conversion error and names a setting that differs with both of its values (or a definition that only one side has); options or a persisted form that are absent are unequal.",
  over=["inputs"], quant="For every pair of options and persisted form, one group of settings (scalars, or one of the five filter definitions, poly definitions included) arbitrary at a time.",
  why="The tests change one field by one value; here both sides are unknowns.",
  files=PER, mech=[("comparison", "internal/persist/comparison.go")],
  runs=[dict(entry="H_C17", what="verdict against equality of all fields", bounds="len: text length; polys: nesting of poly definitions", reach=["same", "different"],
        quick=[dict(), dict(polys=2, len=3, budget_s=60)], thorough=[dict(polys=2, len=8, budget_s=1500), dict(polys=3, few=1, len=1, budget_s=1500)])],
  outside="longer texts, deeper nesting; settings of several groups differing at once")

P(id="C20", title="A concurrent session visits what a sequential one would, once each",
  statement="A Run session calls the client for exactly the nodes that Walk would call it for, each exactly once, with at most the configured number of workers executing the client's handler at any time. When the wait group given to Run has been waited for (after Navigate has returned), every call has finished, whatever the number of workers and however they are scheduled. An error returned by the handler of a Run session does not stop it: if output was requested, exactly one output arrives on the stream for every call, with that call's servant and error, and the stream, which has room for the configured number of outputs (by default as many as there are workers), is then closed. The result's metrics and whether Navigate returns an error are the same as for the sequential session. All of this includes sessions with a filter, a depth limit or hibernation, sessions in which reading a directory panics, and resumed sessions. Throughout, the session's goroutines do not race with one another or with the client, which reads the nodes it is given in its handlers and the outputs on the stream, without locks.",
  over=["schedules", "inputs"], quant="For every tree within the bounds, every subscription, one or two workers, with and without an output stream (of either size), every choice of handler errors, and every schedule within the delay bound.",
  why="A test runs one schedule of one tree, with handlers that end at once; whether the last jobs are done when the pool closes depends on the schedule.",
  files=["synchronise.go", "builders.go", "internal/kernel/mediator.go", "pref/options-concurrency.go"],
  mech=[("worker pool session", "synchronise.go"), ("swap of the client", "internal/kernel/mediator.go"), ("channel sizes", "internal-traverse-defs.go")],
  runs=[dict(entry="H_C20", what="calls, outputs and metrics against the sequential traversal", bounds="nodes: entries below the tree; delays: deviations from the round robin schedule (another goroutine than the next, or a switch at a synchronisation where none is needed); a handler may in addition give way or not; few: universal subscription and no handler errors; context not cancelled, tickers of the pool never tick, send timeouts never run out", reach=["end"],
        quick=[dict(race=1, nodes=2, delays=0), dict(race=1, nodes=1, delays=1, few=1), dict(race=1, nodes=2, delays=1, few=1, budget_s=60), dict(race=1, nodes=3, kids=3, delays=0, budget_s=90), dict(race=1, nodes=0, wide=9, few=1, delays=0)],
        thorough=[dict(race=1, nodes=2, delays=1, budget_s=1200), dict(race=1, nodes=1, delays=2, few=1, budget_s=600), dict(race=1, nodes=3, kids=3, delays=1, few=1, budget_s=900), dict(race=1, nodes=2, delays=2, few=1, budget_s=2400), dict(race=1, nodes=0, wide=6, few=1, delays=1, budget_s=900)]),
   dict(entry="H_C20_same", what="calls, depths, metrics and error against a sequential session of the real code on the same tree, for plain, filtered, depth-limited, hibernating, panicking and resumed sessions", bounds="as above", reach=["end"],
        quick=[dict(race=1, nodes=2, delays=0), dict(race=1, nodes=3, delays=0), dict(race=1, nodes=1, delays=1, budget_s=60), dict(race=1, nodes=1, kids=2, depth=1, wide=6, delays=0), dict(race=1, nodes=1, kids=2, depth=1, deep=4, delays=0)], thorough=[dict(race=1, nodes=2, delays=1, budget_s=900), dict(race=1, nodes=4, delays=0, budget_s=900), dict(race=1, nodes=2, wide=12, delays=0, budget_s=900)])],
  outside="cancelled contexts; handlers that panic; more than two workers; the purge of idle workers; schedules beyond the delay bound")

P(id="C21", title="Incorrect requests are rejected before anything is visited",
  statement="A prime traversal without a tree, subscription or handler, with a facade of the wrong kind, without a forest or with an option that reports an error; a resume without a handler, a path to resume from or a strategy, with a facade of the wrong kind, a missing or incomplete session file, a forest that is missing or does not match the session's kind of file system, or an option that reports an error; and filter, hibernation, child or sample definitions that make no sense (no or unknown type, unsupported type, invalid pattern, absent custom filter or poly definition, a custom filter that does not validate, sampling quantities of zero): each is answered by Navigate with an error that is one of those that apply, and a result that can be asked for its session and metrics (all of them zero), without calling the client, reading a directory or a panic. Definitions that do make sense are accepted.",
  over=["inputs", "configurations"], quant="For every combination of these shortcomings, sequential and concurrent, relative and absolute file systems, both resume strategies.",
  why="The tests try each shortcoming on its own, and some not at all.",
  files=["pref/facade.go", "scaffold.go", "extent.go", "builders.go", "synchronise.go", "internal/filtering/builders.go", "internal/filtering/child.go", "internal/filtering/sample.go", "internal/filtering/poly.go"],
  mech=[("facade validation", "pref/facade.go"), ("scaffold", "scaffold.go"), ("filter construction", "internal/filtering/builders.go")],
  runs=[
   dict(entry="H_C21", what="prime requests", bounds="none beyond the combinations", reach=["end"], quick=[dict()], thorough=[dict()]),
   dict(entry="H_C21_resume", what="resume requests", bounds="a session saved at the tree or an entry of it", reach=["end"], quick=[dict()], thorough=[dict()]),
   dict(entry="H_C21_filter", what="definitions", bounds="four patterns", reach=["end", "accepted"], quick=[dict()], thorough=[dict()])],
  outside="other invalid patterns; the undefined resume strategy")

P(id="C22", title="Traversals do not interfere with one another",
  statement="A traversal calls the client for the same nodes (with the same depths, sub-paths and children), in the same order if it is a Walk, has the same metrics, saves its state or not, and fails or not, whatever other traversals there are: started at the same time from another goroutine, run from inside a callback, configured before and run after it or the other way round, or run before it, also when it is given the same option values, the same definitions or (Using.O) the same options, whose event listeners go on listening. Traversals in different goroutines do not race with one another on any memory, even when they share option values, and no traversal modifies the filter definitions it is given.",
  over=["schedules", "histories"], quant="For every tree within the bounds, every pair of configurations (filters, hibernation, sampling, depth limits, hooks, skips, errors, panics, resumes, Walk or Run), every arrangement of the two, and every schedule within the delay bound.",
  why="The tests run one traversal at a time, and build its options afresh.",
  files=["driver.go", "internal/opts/get-push.go", "life/events.go", "internal/filtering/builders.go", "internal/services/broker.go", "pref/facade.go"],
  mech=[("session registration", "driver.go"), ("reuse of options", "pref/facade.go"), ("filter construction", "internal/filtering/builders.go")],
  runs=[dict(entry="H_C22", what="calls, metrics, errors and definitions against the same traversal on its own; memory accesses ordered by synchronisation", bounds="kind: 0 at once, 1 in a callback, 2 configured first, 3 shared option values, 4 shared and at once, 5 options of the other, 6 options given; nodes: entries below the tree; features: configurations; pools: Run sessions too (one worker); resumed: resumed sessions too; subs: all subscriptions, else universal; after: the traversals on their own also after the pair; delays: deviations from the round robin schedule", reach=["end"],
        quick=[dict(kind=0, features=20, nodes=1, delays=0, race=1, after=1, budget_s=60), dict(kind=0, features=4, nodes=1, delays=1, race=1, budget_s=40), dict(kind=0, features=5, nodes=2, pools=1, delays=0, race=1, budget_s=40), dict(kind=0, features=4, nodes=2, resumed=1, delays=0, race=1, budget_s=60),
               dict(kind=1, features=20, nodes=1, delays=0, after=1, budget_s=60), dict(kind=2, features=20, nodes=1, delays=0, after=1, budget_s=60), dict(kind=3, features=20, pools=1, subs=1, nodes=2, delays=0), dict(kind=4, features=20, subs=1, nodes=2, delays=1, race=1), dict(kind=4, features=20, subs=1, nodes=2, delays=0, pools=1, resumed=1, race=1), dict(kind=5, features=20, pools=1, subs=1, nodes=3, delays=0), dict(kind=6, features=20, pools=1, subs=1, nodes=3, delays=0)],
        thorough=[dict(kind=0, features=20, nodes=2, delays=1, race=1, after=1, budget_s=900), dict(kind=0, features=20, nodes=2, pools=1, delays=0, race=1, budget_s=900), dict(kind=0, features=20, nodes=2, subs=1, resumed=1, delays=0, race=1, budget_s=900), dict(kind=1, features=20, nodes=3, delays=0, after=1, budget_s=600), dict(kind=1, features=20, nodes=2, pools=1, delays=0, budget_s=600), dict(kind=2, features=20, nodes=3, delays=0, after=1, budget_s=600), dict(kind=3, features=20, pools=1, subs=1, resumed=1, nodes=3, delays=0, budget_s=600), dict(kind=4, features=20, subs=1, nodes=3, delays=1, pools=1, race=1, budget_s=900), dict(kind=5, features=20, pools=1, subs=1, nodes=4, delays=0, budget_s=300), dict(kind=6, features=20, pools=1, subs=1, nodes=4, delays=0, budget_s=300)])],
  outside="more than two traversals; the same facade or navigator used at once from two goroutines; one options object used at once from two goroutines; schedules beyond the delay bound")

P(id="C23", title="Each option changes what it names, in order, and nothing else",
  statement="The options given to a session are applied once each, in the order given, to the documented defaults: each With option sets what it is named after to the given value and leaves everything else as it is, so that the last one to set something prevails; those that take a listener add it to the listeners of that notification. A nil option is skipped; IfOption, IfOptionF and IfElseOptionF give the option that their condition selects, and call only the function selected. When an option reports an error the ones after it are not applied, and Navigate returns that error without calling the client. The composites Hydra, Hare, Tortoise and Goldfish do what the Walk or Run of a Prime or Resume does that their arguments stand for.",
  over=["inputs", "configurations"], quant="For every list of options within the bounds, drawn from all of them, with any values, conditions and wrappers, and a failing option at any place; every composite and its arguments, either facade, either resume strategy.",
  why="The tests apply each option on its own, to a fixed value, and seldom look at the rest.",
  files=["pref/options.go", "pref/options-navigation-behaviours.go", "pref/options-hibernate.go", "pref/options-sampling.go", "pref/options-concurrency.go", "pref/options-hooks.go", "pref/options-filter.go", "pref/options-log.go", "pref/defects.go", "internal/opts/get-push.go", "composites.go", "director.go"],
  mech=[("setters", "pref/options.go"), ("application", "internal/opts/get-push.go"), ("composites", "composites.go")],
  runs=[
   dict(entry="H_C23", what="effective options against a model of each setter", bounds="options: length of the list (a filter option sets any combination of filters if it is alone, else one of them); wraps: how an option may be wrapped (1 not at all, 2 IfOption, 3 and IfOptionF, 4 and IfElseOptionF)", reach=["end"],
        quick=[dict(options=1), dict(options=2, wraps=2, budget_s=60)], thorough=[dict(options=1), dict(options=2, wraps=4, budget_s=600), dict(options=3, wraps=1, budget_s=900)]),
   dict(entry="H_C23_kinds", what="the composite against the session it stands for", bounds="nodes: entries below the tree; one worker; round robin schedule and delays from it", reach=["end"],
        quick=[dict(nodes=2, delays=0)], thorough=[dict(nodes=3, kids=3, delays=0), dict(nodes=1, delays=1, budget_s=600)]),
   dict(entry="H_C23_listen", what="the options that take listeners, against the notifications they are named after", bounds="options: length of the list", reach=["end"],
        quick=[dict(options=4)], thorough=[dict(options=6, budget_s=600)])],
  outside="options of a resume (see C16)")

P(id="C24", title="Collections and sequence helpers compute what they stand for",
  statement="A stack gives back what was pushed and not yet popped, the latest first, and its size and content say so; popping an empty one (or asking for the current item) reports that the stack is empty, MustPop by panicking with that error. A forward iterator goes through its elements in order, a reverse one from the last to the first: Start gives the first of them, Next the next one, the zero value being given once there is none, and Valid says whether the iterator points to one; Reset begins anew with other elements, and RunAll calls each for every element until while declines or there is none left. A positional set holds its anchor and those items of its order that were inserted and not deleted, once each, and lists them in its order (first occurrences, the anchor last); Insert reports whether the item was added, All whether all of them were. The sequence helpers (Filter, Reject, Map, MapE, Reduce, Uniq, GroupBy, Find, Last, Contains, EveryBy, Sum, Keys, Values, Ternary, TernaryF) compute what they are documented to, calling their function once for each element in order (MapE until the first error), and leave the given slice as it is.",
  over=["inputs", "histories"], quant="For every history of operations within the bounds and all values of the elements.",
  why="The tests run a few fixed histories with fixed elements, without duplicates or empty sequences.",
  files=["collections/stack.go", "collections/iterators.go", "collections/positional-set.go", "internal/third/lo/slice.go", "internal/third/lo/find.go", "internal/third/lo/map.go", "internal/third/lo/condition.go"],
  mech=[("stack", "collections/stack.go"), ("iterators", "collections/iterators.go"), ("positional set", "collections/positional-set.go"), ("helpers", "internal/third/lo/slice.go")],
  runs=[
   dict(entry="H_C24_stack", what="a stack against the sequence it stands for", bounds="steps: operations; up to three initial items; any integers", reach=["end"], quick=[dict(steps=5)], thorough=[dict(steps=9, budget_s=600)]),
   dict(entry="H_C24_iterator", what="iterators against positions in the sequence", bounds="steps: operations; size: elements; any integers", reach=["end"], quick=[dict(steps=3), dict(steps=2, size=5)], thorough=[dict(steps=5, budget_s=900), dict(steps=3, size=5, budget_s=600)]),
   dict(entry="H_C24_set", what="positional sets of integers against the list of what is in them", bounds="size: items of the order, besides the anchor, duplicates included; steps: operations; any integers", reach=["end"], quick=[dict(size=2, steps=2), dict(size=3, steps=1)], thorough=[dict(size=3, steps=2, budget_s=900), dict(size=2, steps=3, budget_s=900)]),
   dict(entry="H_C24_strings", what="the same, of strings", bounds="strings of two characters out of two", reach=["end"], quick=[dict(size=2, steps=1)], thorough=[dict(size=2, steps=2)]),
   dict(entry="H_C24_helpers", what="helpers against their definition", bounds="size: elements; any integers", reach=["end"], quick=[dict(size=4)], thorough=[dict(size=6, budget_s=600)])],
  outside="longer histories; what happens to results that the client modifies; concurrent use")

P(id="C25", title="Errors say what is wrong, with what, and can be told apart",
  statement="The text of every error that the library defines says what the error is and includes the values that it was made with: the pattern, path, state, notification or topic it is about, the reason why a session could not be saved, and the place where it was saved. No two kinds of error say the same. However an error is wrapped or joined with others, it is recognised (by errors.Is, or by the function provided to recognise it) as what it is and as nothing else. When a traversal is interrupted by a panic, the text of the error it returns says where the session was saved, and it is there.",
  over=["inputs"], quant="For every kind of error, every pair of kinds, all values within the bounds, every way of wrapping within the bounds, and a panic at any node of every tree within the bounds.",
  why="The tests look at a few of the messages, with fixed values, unwrapped.",
  files=["locale/messages-errors.go", "core/errors.go", "collections/errors.go", "internal/kernel/navigator-agent.go"],
  mech=[("localised errors", "locale/messages-errors.go"), ("native errors", "core/errors.go")],
  runs=[
   dict(entry="H_C25", what="texts and recognition of errors", bounds="36 kinds of error; values of three characters; wraps: layers of wrapping", reach=["end"], quick=[dict(wraps=2)], thorough=[dict(wraps=3, budget_s=600)]),
   dict(entry="H_C25_saved", what="the error of an interrupted traversal", bounds="nodes: entries below the tree; a panic at any of them", reach=["end", "saved"], quick=[dict(nodes=3, kids=3)], thorough=[dict(nodes=5, kids=3, budget_s=300)])],
  outside="translations to other languages (messages are rendered in the default one, by a model of the template that natively replayed cases confirm)")

P(id="C26", title="Messages reach the handlers that match their topic",
  statement="A message emitted on a registered topic of the message bus reaches every registered handler whose matcher matches the topic exactly once, in its latest registered version, and no other handler, with the topic, data and source it was emitted with, the transaction identifier of the context or else a fresh one, a time, and an identifier that is given or fresh; emitting on a topic that is not registered reports the topic-not-found error and reaches no handler. The lists of topics, of handlers, of the handlers of a topic and of the topics of a handler say exactly what is registered, whatever the order in which topics and handlers were registered, registered again and removed. A bus cannot be made without an identifier generator.",
  over=["histories"], quant="For every history of registrations, removals and messages within the bounds.",
  why="The bus has no tests of its own; the traversal uses one topic at a time.",
  files=["internal/third/bus/broker.go", "internal/services/broker.go"],
  mech=[("bus", "internal/third/bus/broker.go")],
  runs=[dict(entry="H_C26", what="receipts and lists against a model of what is registered", bounds="three topics, two handlers, five matchers; start: handlers there may be at the start; steps: operations after that", reach=["end"],
        quick=[dict(steps=2, start=2)], thorough=[dict(steps=3, start=2, budget_s=900)])],
  outside="the order of handlers; handlers that change the registrations while a message is being delivered; concurrent use")

P(id="C27", title="Controls, hooks and scopes do exactly what was attached to them",
  statement="Each of the six life cycle notifications reaches the listeners that subscribed to that event, each once, in the order in which they subscribed and with the payload it was raised with, and nobody else; muting (one or all) silences it without losing subscriptions, and unmuting restores it. Binding the events to new controls keeps the earlier subscriptions, in order, and later subscriptions and mutes of either do not reach the other. A hook runs the default, or what replaced it, exactly once and then each chained function once in order of chaining, each being given what the previous one returned; the default remains available. A filter scope is a set: setting and clearing a mask adds or removes exactly its members, queries tell membership, and scrubbing leaves the file and directory members only.",
  over=["histories", "inputs"], quant="For every history of subscribing, muting, unmuting, rebinding, tapping, chaining and raising within the bounds, for every event, and for every 32 bit scope and mask.",
  why="The tests subscribe one or two listeners and mute once; the interplay of rebinding with later subscriptions is never sampled.",
  files=["life/events.go", "tapable/hooks.go", "tapable/broadcasters.go", "enums/filter-scope-en.go"],
  mech=[("controls", "life/events.go"), ("hooks", "tapable/hooks.go")],
  runs=[dict(entry="H_C27_events", what="what each control delivers at the end of the history", bounds="steps: operations, on one event, its neighbour and all together", reach=["end"],
        quick=[dict(steps=5)], thorough=[dict(steps=6, budget_s=900)]),
   dict(entry="H_C27_hooks", what="calls of a hook", bounds="steps: operations", reach=["end"], quick=[dict(steps=6)], thorough=[dict(steps=8, budget_s=600)]),
   dict(entry="H_C27_scope", what="scopes bit by bit", bounds="none: all 32 bit values", reach=["end"], quick=[dict()], thorough=[dict()])],
  outside="tapping a hook after chaining onto it (documented as making no sense); concurrent use")

P(id="C28", title="The client's sink is handed the filters in use",
  statement="If the client gives a sink with its filter options, then before anything is visited the sink is handed, once each, the filter made from the node definition, the one made from the child definition and the one made from the sample definition, and no others. The node and child filters tell the description and pattern of their definition (for a poly filter, those of both parts), the node filter tells its scope (all scopes if the definition has none; files for an extended glob; those of both parts, file and directory each forced on its own part, for a poly filter), all of them validate without error, and the node filter, when asked, accepts the nodes that the client was called for, and the child filter picks from a list of files those which its definition describes.",
  over=["inputs", "configurations"], quant="For every kind of definition (glob, regular expression, extended glob, poly, child, sample), negated or not, every scope combination and if-not-applicable setting, every description, every subscription, and " + TREES + ".",
  why="The tests use the sink only to name the filter in their own output.",
  files=["internal/feat/filter/scheme-native.go", "internal/feat/filter/scheme-nanny.go", "internal/feat/filter/scheme-sampler.go", "internal/filtering/base.go", "internal/filtering/poly.go", "internal/filtering/child.go", "pref/options-filter.go"],
  mech=[("replies", "internal/feat/filter/scheme-native.go"), ("descriptions", "internal/filtering/base.go"), ("poly filters", "internal/filtering/poly.go")],
  runs=[dict(entry="H_C28", what="the replies against the definitions", bounds="kids, directory depth, entries; descriptions of two characters; sets of patterns", reach=["end"],
        quick=[dict(nodes=1), dict(nodes=2, budget_s=90)], thorough=[dict(nodes=2, budget_s=900), dict(kids=3, nodes=3, budget_s=1500)])],
  outside="client-defined filters (the client has them already); longer descriptions")

P(id="C29", title="A cancelled concurrent session comes to an end",
  statement="When the context of a Run session is cancelled - before Navigate, when the traversal begins, by the client's handler, or by another goroutine at any time - Navigate still returns, with no error or with the context's, and announces the end of the traversal once. Whatever was cancelled and when, the client has been called only for nodes that the traversal would have visited, no node more than once and no more nodes at a time than there are workers; at most one output arrives for each call and none without one; and nothing races. A session whose context is never cancelled returns no error, has called the client for every node, and closes the stream of outputs.",
  over=["schedules", "fault_sequences"], quant="For every tree within the bounds, one or two workers, with and without an output stream, every moment of cancellation, and every schedule within the delay bound.",
  why="Whether a submission is blocked, under way or done when the context is cancelled depends on the schedule; a test that cancels sees one moment.",
  files=["synchronise.go", "internal/kernel/mediator.go", "pref/options-concurrency.go"],
  mech=[("submission of jobs", "synchronise.go"), ("release of the pool", "synchronise.go"), ("end of the traversal", "internal/kernel/mediator.go")],
  runs=[dict(entry="H_C29", what="calls, outputs, error and end under cancellation", bounds="nodes: entries below the tree; delays: deviations from the round robin schedule; a handler may in addition give way or not; tickers of the pool never tick, send timeouts never run out", reach=["end"],
        quick=[dict(race=1, nodes=2, delays=0), dict(race=1, nodes=3, kids=3, delays=0), dict(race=1, nodes=1, delays=1), dict(race=1, nodes=0, kids=1, wide=3, delays=1, budget_s=120), dict(race=1, nodes=2, delays=1, budget_s=150)],
        thorough=[dict(race=1, nodes=2, delays=1, budget_s=900), dict(race=1, nodes=0, kids=1, wide=6, delays=0, budget_s=900), dict(race=1, nodes=1, delays=2, budget_s=1800)])],
  outside="whether the wait group is released after a cancellation: github.com/snivilised/pants can leave a worker asleep when its context is cancelled at the wrong moment, and does not close the stream of outputs, so a reader has to watch the context too; sequential sessions, which do not look at the context; deadlines")

P(id="C30", title="The session tells when it began and how long it has taken",
  statement="The session of a result tells when the traversal started - after Navigate was called, and before anything was announced or visited - always the same time, at the end notification and afterwards; and when asked for the time elapsed, one that is not negative, includes everything up to the last call of the client, and is no longer than the time that has passed since the start. So it is for traversals that succeed, fail, panic, are rejected or resumed, sequential or concurrent. A resumed or prime session that ended without an error is complete, once its end has been announced.",
  over=["inputs", "schedules"], quant="For " + TREES + ", every subscription, a client that takes its time or not, fails, or panics at any of its first calls, rejected requests, both resume strategies, and any amounts of time between any two readings of the clock.",
  why="Tests do not look at the clock; that the times are right however long each step takes is a matter of all possible readings.",
  files=["session.go", "driver.go", "internal/enclave/kernel-result.go", "extent.go"],
  mech=[("session times", "session.go"), ("start and end of the session", "driver.go"), ("completion", "extent.go")],
  runs=[dict(entry="H_C30", what="start, elapsed time and completion against a symbolic clock", bounds="clock: each reading up to 255 units of 8.192 us after the one before; nodes: entries below the tree; concurrent sessions: one worker, round robin with delays deviations", reach=["end", "resumed-well"],
        quick=[dict(clock=1, race=1, nodes=1, delays=1, budget_s=60), dict(clock=1, nodes=3, kids=3, delays=0)],
        thorough=[dict(clock=1, race=1, nodes=2, delays=1, budget_s=600), dict(clock=1, nodes=4, kids=3, depth=3, delays=0, budget_s=600)])],
  outside="whether the time goes on after the end of the traversal (it does); the clock going backwards; time zones")

P(id="C31", title="Options work together",
  statement="What a traversal does with several options at once is what each of them says by itself, in this order: a directory has the entries that reading it gives (by way of the read hook, and none if it cannot be read), of which those that pass the sample filter take part, of which the first or last so many, as sampled; they are visited in the order of the sort hook, files first if so configured, down to the depth limit; of the entries subscribed to, hibernation offers those from the wake to the sleep point and then ends the traversal; of these, the node filter lets some through to the client, whose answer, and then the skip handler's, steer the traversal. A directory comes with its files that take part and pass the child filter, if there is one or files were asked for along with directories. Notifications, metrics, the error and the order of visits follow from that, whichever of the options are used together, in whatever order they are given; with a worker pool too, except that the client's answer comes too late to make a difference.",
  over=["inputs", "configurations", "fault_sequences"], quant="For " + TREES + ", each subscription, every set of up to four of fourteen options (client-defined and glob node filter, child filter, sampling, sample filters, depth limit, files first, sort hook, read hook, hibernation, skip handler, answers of the client, directories that cannot be read, entries without details), any verdict, answer and fault for each entry.",
  why="Tests use one option at a time, or a fixed pair: what two of them do to each other depends on which, on the tree, and on every verdict along the way.",
  files=["scaffold.go", "manifest.go", "internal/kernel/guardian.go", "internal/kernel/mediator.go", "internal/feat/filter/schemes.go", "internal/feat/filter/scheme-sampler.go", "internal/feat/filter/scheme-hybrid.go", "internal/feat/hiber/hibernate-plugin.go", "internal/feat/sampling/controller.go", "internal/feat/nanny/nanny-plugin.go"],
  mech=[("order of roles", "manifest.go"), ("links of the chain", "internal/kernel/guardian.go"), ("choice of filters", "internal/feat/filter/schemes.go")],
  runs=[dict(entry="H_C31", what="all combinations of options against the reference", bounds="together: options at once; kids, directory depth, entries in total; backwards: options in reverse order too; pool: with two workers, under one schedule", reach=["end"],
        quick=[dict(together=1, nodes=3), dict(together=2, nodes=2), dict(together=3, nodes=1, kids=1), dict(together=2, nodes=2, backwards=1), dict(together=2, nodes=3, budget_s=60), dict(together=2, nodes=1, wide=12, deep=3), dict(together=2, nodes=2, pool=1, delays=0)],
        thorough=[dict(together=3, nodes=2, budget_s=900), dict(together=4, nodes=1, kids=1, budget_s=900), dict(together=2, nodes=3, kids=3, budget_s=900), dict(together=2, nodes=1, kids=1, pool=1, delays=1, budget_s=600)])],
  outside="more options at once; larger trees; more than one schedule for each combination with workers (see C20); options while resuming (see C18, C19)")

THEMES = {"H_C01": "nodes=4", "H_C02_nested": "kids=3 nodes=4", "H_C03": "depth=3 nodes=4", "H_C04": "kids=3 nodes=3", "H_C10": "nodes=1 many=3",
          "H_C05": "nodes=2", "H_C04_ask": "nodes=2", "H_C05_err": "nodes=2", "H_C06": "nodes=2", "H_C08": "kids=3 depth=1 nodes=3", "H_C09": "nodes=2",
          "H_C14_read": "nodes=2", "H_C14_status": "listeners=2", "H_C14_subpath": "listeners=2", "H_C15": "nodes=1", "H_C16_session": "nodes=1",
          "H_C18": "trees=1 nodes=2", "H_C19": "trees=1 nodes=2", "H_C13": "few=1 nodes=2", "H_C12": "depth=1 nodes=2", "H_C12_filter": "nodes=1", "H_C20": "nodes=1 delays=0", "H_C31": "together=1 nodes=2"}
BIG = {"H_C02_nested": "wide", "H_C03": "wide far=256", "H_C04": "wide deep", "H_C05": "wide deep", "H_C06": "wide deep", "H_C08": "wide", "H_C09": "wide",
       "H_C10": "wide many=1", "H_C13": "wide few=1", "H_C18": "wide deep trees=1 acts=0", "H_C19": "wide deep trees=1 acts=0"}
for _p in PROPS:
    for _r in _p["runs"]:
        _b = BIG.get(_r["entry"], "").split()
        for _s in ("wide", "deep"):
            if _s in _b:
                _t = dict(kids=1, depth=1, nodes=1, **{_s: 260}, **{x.split("=")[0]: int(x.split("=")[1]) for x in _b if "=" in x})
                _r["quick"].append(_t)
for _p in PROPS:
    for _r in _p["runs"]:
        if _r["entry"] in THEMES:
            _t = dict(kids=2, depth=2, themes=1)
            _t.update((k, int(v)) for k, v in (x.split("=") for x in THEMES[_r["entry"]].split()))
            _u = dict({k: v for k, v in _t.items() if k != "themes"}, texts=1)
            if _r["entry"] in ("H_C14_read", "H_C16_session"):
                _u["nodes"] = 1
            _r["quick"] += [_t, _u]
            _r["thorough"].append(dict(_t, nodes=_t.get("nodes", 1) + 1, budget_s=600))
            _r["bounds"] += "; themes: the names of entries from five sets of names as they occur (upper case, same but for case, hidden, spaces, numbers, name of the tree, not ASCII, not UTF-8); texts: the path of the tree one of eight, clean or not"
for _p in PROPS:
    for _r in _p["runs"]:
        _all = _r["quick"] + _r["thorough"]
        if any("wide" in d for d in _all):
            _r["bounds"] += "; wide: entries (every third an empty directory) that come before the unknown ones in the root; deep: directories between the root and the unknown entries; these entries are given, and the client, hooks and filters do nothing special at them"
        if any("race" in d for d in _all):
            _r["bounds"] += "; race: with detection of data races"
