AI = "static analysis: abstract interpretation of the SSA form with inferred loop and recursion summaries"
CLAIMS = {
 "C01": (AI, "every instruction that could panic is an obligation over all syntax trees the grammar's actions build, all numbers, texts and feeders"),
 "C02": (AI + "; classification of every error by the decisions on its path", "an error reached without a decision about a number, a die or the feeder rejects a form of command"),
 "C03": (AI + "; nilness of every returned pair", "all returns of ExecuteCommand and Execute"),
 "C04": (AI + " with an event typestate (draw, record, copy)", "all syntax trees; drawing order inside a roll by the sequence rules"),
 "C05": (AI + " with difference-bound constraints on lengths, faces and values", "any feeder, any number of dice and faces"),
 "C06": ("static analysis: ranking of every loop, size-change analysis of every recursion, left-recursion analysis of the grammar, abstract interpretation of the loops that draw", "every loop and call cycle reachable from ExecuteCommand; the generated parser's runtime is assumed to interpret the grammar it is given"),
 "C07": ("static analysis: backtracking/overlap analysis of the extracted PEG grammar", "decides the grammar value compiled into the parser"),
 "C08": ("static analysis: effect analysis over the call graph", "every function reachable from ExecuteCommand except the feeder's Next"),
 "C09": ("static analysis: write-effect analysis over the call graph and abstract interpretation of the command pipeline", "every function reachable from ExecuteCommand except the feeder's Next"),
 "C10": (AI + " with an ownership (sharing) domain", "every accessor and method that takes or hands over dice lists, on any list"),
 "C16": (AI + " over symbolic sequences", "the roll and evaluation handlers on any argument and any queue"),
 "C24": (AI + " over symbolic sequences, applied to the grammar's actions and the evaluator", "any number of items with any texts, any die"),
 "C26": (AI + " over symbolic sequences, applied to the grammar's actions", "operator chains of any length with any operands"),
 "C14": (AI + "; definition-use analysis of every other numeral conversion", "every numeral; every conversion call in the repository"),
 "C15": ("static analysis: path analysis of the SSA form from every call that can fail", "every call with an error result in the repository, about 300"),
 "C12": (AI + " over symbolic texts; the text shown is read back by the grammar's tables", "every nesting of up to three operators (four in the thorough run) with any numbers, in calculations, rolls, thresholds and bonuses"),
 "C25": (AI + " over symbolic sequences; path conditions at the first draw", "any number of rolls with any numbers, faces and thresholds, any dice"),
 "C27": (AI + " over symbolic sequences with fold recurrences", "any number of groups and dice of any value"),
 "C11": (AI + "; values compared in a domain of linear inequalities with the operands' signs split", "every arithmetic and comparison node on any two integers"),
 "C23": (AI + "; path conditions compared with the comparison", "all syntax trees; any total and target"),
 "C19": (AI + "; typestate of answers", "every registered handler and every response helper with any status"),
 "C20": (AI, "every listed identifier and any other text"),
 "C21": (AI, "every declared constant of every integer type with a String method; every node constructor; every value kind"),
 "C29": ("static analysis: effect analysis (abstract interpretation of handlers, call graph reachability)", "no handler writes memory shared between requests; echo itself is assumed"),
 "C13": (AI + " over string terms", "any text, the basic game system and an unknown one"),
 "C17": (AI, "every command handler on any argument with either kind of feeder; the pipeline with any feeder"),
 "C18": (AI, "every listed command; any line; every handler on any argument"),
 "C22": ("static analysis: structural comparison of the grammar literal with the .pigeon source", "compares grammar expressions rule by rule"),
 "C30": (AI + "; contents of lists compared by name and recurrence", "every operation of the queue on any content and any argument; histories by induction over operations"),
 "C31": (AI + "; texts joined from lists named by the recurrence of their parts", "one shape of each form of command, with any figures, any number of dice up to 10000 and lists of any length; every path of execution and formatting"),
}
NA = {
 "C28": "the distribution of a pseudo random sequence quantifies over the generator's whole period; the vendored MT19937 and the standard library are outside any static argument in reach",
}
