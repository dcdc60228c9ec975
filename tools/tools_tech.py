"""The deciding method of each check, in a sentence (goes to MANIFEST.json)."""
T = "TLA+/TLC: "
TECH = {
 "C01": T + "Duval's machine and the suffix-rank machine model-checked against the unique factorization (MC_Lyndon); behaviours replayed in core::duval, isa_lyndon_factorization; recorded factorizations, factor files, counts and logs validated by TR_Lyndon",
 "C02": T + "transform, its computation by suffix sorting and its inverse model-checked (MC_Bwt); replay in core and recorded transforms of library and tool validated by TR_Bwt with a verified suffix-array certificate",
 "C03": T + "rotation transform model-checked against sorted rotations (MC_Bwt); replay; recorded transforms of both implementations and bwt -u validated by TR_Bwt with a verified omega-order certificate",
 "C04": T + "bijective transform, its inverse machine and injectivity model-checked (MC_Bwt); replay; recorded transforms validated by TR_Bwt against the order of the factors' infinite powers",
 "C05": T + "greedy parser with every choice of source and the decoder model-checked (MC_Parse); replay; every factor written by count_z is an event of TR_Parse",
 "C06": T + "lex-parse, acyclicity of its references and resolution model-checked (MC_Parse); replay; every factor written by count_lexparse is an event of TR_Parse",
 "C07": T + "minimal unique substrings by definition and by ranks model-checked (MC_Parse); replay; reports of mus validated by TR_Parse",
 "C08": T + "all short texts with all position sets model-checked (MC_Attractor: definition, LCP-interval groups, suffix-tree-edge criterion); replay; verdicts, named substrings and statuses validated by TR_Parse",
 "C09": T + "integer log-coefficients of the entropy from the definition and from LCP blocks model-checked (MC_Entropy); replay; reported values validated by TR_Entropy in fixed point against a table of logarithms",
 "C10": T + "k-mer counting machine model-checked against the definition of the entropy (MC_Entropy); replay; reported values validated by TR_Entropy",
 "C11": T + "scripted readers (pieces, interruptions, errors) feeding the one-pass counters model-checked with termination (MC_Runs); replay of every script; counts of library and tools validated by TR_Runs",
 "C12": T + "one-pass alphabet counter model-checked (MC_Runs); replay; reports validated by TR_Runs",
 "C13": T + "escaping and reversion transducers model-checked over all symbol choices and all malformed inputs (MC_Escape); replay in the tool; recorded outputs validated byte by byte by TR_Codec",
 "C14": T + "three run-length encoders and decoders model-checked (MC_Codec); replay; recorded outputs validated run by run by TR_Codec",
 "C15": T + "move-to-front machine and inverse model-checked (MC_Codec); replay; recorded outputs validated byte by byte by TR_Codec",
 "C16": T + "process model (sources in pieces, interruptions, prefix) model-checked (MC_Cli); scenarios replayed in real processes; groups of runs on the same bytes validated by TR_Cli",
 "C17": T + "Kasai's machine, previous/next-smaller chains and the suffix-array certificate model-checked (MC_Suffix); replay; recorded tables validated by TR_Suffix",
 "C18": T + "failure-function machine model-checked against borders, periods, primitivity (MC_Border); replay for several element types; recorded tables validated by TR_Words",
 "C19": T + "Duval on the doubled text model-checked against the set of smallest rotations (MC_Border); replay; recorded rotations validated by TR_Words",
 "C20": T + "Duval's successor model-checked: sound, ordered, complete (MC_Enum); replay; recorded sequences of generator and tool validated event by event by TR_Words",
 "C21": T + "string successor model-checked: sound, ordered, complete (MC_Enum); replay; recorded sequences of tools and generator validated by TR_Words",
 "C22": T + "morphism iteration as a transition system model-checked with lengths, prefixes and random access (MC_Words); replay; long words validated position by position by TR_Words",
 "C23": T + "paper folding and Kolakoski machines model-checked against the rules (MC_Rules); replay; recorded words validated by TR_Words",
 "C24": T + "shift-rule machine and prenecklace scan model-checked (MC_Rules, MC_Border); replay; recorded words and verdicts validated by TR_Words",
 "C25": T + "digit machine of the text generator model-checked (MC_Rules); recorded texts of generator and tool validated by TR_Words (bit-sequence arithmetic)",
 "C26": T + "record search model-checked for short strings (MC_LexEnum); the printed stream and samples of all strings before each record validated by TR_LexEnum",
 "C27": T + "process model with a sink that fails for good after any number of bytes model-checked (MC_Cli); scenarios replayed with file-size limits, full and closed devices, closed pipes; validated by TR_Cli",
 "C28": T + "process model model-checked (MC_Cli); groups of runs differing in name, option order, log level and destination validated by TR_Cli, including the fields of RESULT lines",
 "C29": T + "process model with a source that fails after any number of bytes model-checked (MC_Cli, MC_Runs); replay with real failing descriptors and scripted readers; validated by TR_Cli and TR_Runs",
 "C30": T + "four concurrent stages connected by bounded pipes model-checked for losslessness, no refusal, no deadlock, termination (MC_Pipeline); replay in real process pipelines; recorded runs decoded step by step by TR_Pipeline",
 "C31": T + "a file system with rights and a process opening its files in either order, model-checked for untouched files, sufficiency of rights and termination (MC_Files); replay with real permissions as an unprivileged user; recorded file trees before and after runs of all tools judged by TR_Files",
 "C32": T + "a program that holds generators and calls functions, all short histories model-checked against the declared sequences (MC_Calls) and replayed in the library; long recorded histories (generators created and dropped, alike calls, refused calls, a file written and read), of one thread and of eight at the same time, judged by TR_Calls, where a call's answer is its answer in a process of its own",
 "C33": T + "option grammar as a word-by-word automaton over the tools' signatures, all short lines over the tools' own words model-checked for consistency, order independence and a plain equivalent (MC_Args); replay in the real tools, each in a directory of its own, against the plain line; long and spoilt recorded lines judged by TR_Args",
}
