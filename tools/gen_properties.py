#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one readable place)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
M="merge.go"; C="cache.go"; R="internal/cascadia/rules.go"; PA="internal/cascadia/parser.go"; S="internal/cascadia/selector.go"; PC="internal/cascadia/pseudo_classes.go"; SE="internal/cascadia/serialize.go"; SP="internal/cascadia/specificity.go"; PR="internal/props/properties.go"; PJ="internal/props/gen/properties.json"

p("C01","Merging and adding rules from many goroutines is race-free and never deadlocks",
"Any number of goroutines may merge class lists, add stylesheets and ask for the rules of one merger at the same time without a data race. Everything these calls share is read only while the merger's lock is held and changed only while it is held exclusively; what a call returns to its caller is not changed by later calls. Every lock taken is released on every way out of a call, and no call locks again what it already holds.",
["schedules"],"every interleaving of any number of concurrent calls of the exported methods of one merger",
"The tests are single-threaded and the race detector only sees the schedules it happens to run.",
[M],[("lock held by Merge, AddRules and Rules","merge.go: Merger.Merge, Merger.AddRules, Merger.Rules")],
[("rules","class name to rule, shared by all calls","merge.go: Merger.rules")])
p("C02","A cached answer is the answer the current stylesheet gives for that exact input",
"Merging with a cache returns what merging without one would return: an answer is stored only under the exact class string it was computed for, it is stored exactly as it is returned, and a stored answer is returned unaltered. Once a stylesheet has been added, no answer that was computed before it is ever returned again, also when merges run at the same time.",
["histories","schedules"],"every history of merges and stylesheet additions, sequential or concurrent, with any cache",
"A stale or mixed-up entry needs a particular order of merges and additions; the tests merge each string once or twice with fixed rules.",
[M],[("store under the lock the rules were read with","merge.go: Merger.Merge"),("clear while rules are replaced","merge.go: Merger.AddRules")])
p("C03","The bundled cache gives back exactly what was last stored, from any goroutine",
"Looking up a key in the bundled cache gives the value most recently stored under exactly that key since the last clearing, and reports a miss otherwise, for every key and every value including empty ones. Its operations may run concurrently without a data race.",
["histories","schedules"],"every sequence of store, look-up and clear operations on arbitrary keys and values, and every interleaving of them",
"The tests use two fixed keys from one goroutine.",
[C],[("SimpleCache on a concurrent map","cache.go: SimpleCache.Get, Set, Clear")])
p("C04","Merging is deterministic",
"The result of a merge depends only on the class string, the stylesheets added so far and the keep-order option. The order in which a hash map happens to be walked, time, randomness and earlier merges never show in it.",
["inputs","schedules"],"every class string and stylesheet, every map iteration order",
"Map iteration order changes between runs; a test passes or fails by luck and only for its own class lists.",
[M],[("sort before join","merge.go: unique, sortSubset")])
p("C05","Merging never invents, alters or repeats a class",
"Every class in the result of a merge is, character for character, one of the whitespace-separated classes of the input, and no class occurs twice when two or more classes were given. The classes of the result are separated by single spaces.",
["inputs"],"every class string, every set of rules, both keep-order settings",
"The tests compare a few hundred fixed strings.",
[M],[("tokens copied from input to output","merge.go: Merger.Merge")])
p("C06","Classes the stylesheet does not know are always kept",
"A class of the input for which no rule has been added is part of the result, whatever its name and its position and whatever the other classes are.",
["inputs"],"every class string of two or more classes, every set of rules",
"Tests include a handful of unknown names; the guarantee is for every name.",
[M],[("unknown class branch","merge.go: Merger.Merge")])
p("C07","Of two conflicting classes the one written later wins",
"If every property a class sets is also set, under the same circumstances and without !important on either side, by a class written later in the same input, the earlier class is dropped (unless it is written again later). The class that is written last among those setting some ordinary (not custom) property under some circumstances is always kept.",
["inputs"],"every class string, every pair of positions, every set of rules whose selectors are a single class with an optional condition",
"The tests cover particular pairs of Tailwind classes at particular positions.",
[M],[("last writer per property","merge.go: Merger.Merge")])
p("C08","Classes conflict only when they apply under the same circumstances",
"Two classes whose rules differ in their enclosing @media/@supports conditions, in their pseudo-classes or in their pseudo-element never displace each other, and a class that styles the element itself and one that styles other elements through a combinator never displace each other. The order in which pseudo-classes are written in a selector makes no difference.",
["inputs"],"every pair of rules that differ in a condition, pseudo-class, pseudo-element or combinator",
"Each kind of circumstance multiplies with every other; tests sample a few pairs.",
[M,R,S,PC],[("circumstance in the conflict key","merge.go: propModifier"),("condition text","internal/cascadia/rules.go: CssRule.GetCondition; selector.go: CompoundSelector.PseudoElementsString")])
p("C09","Every declaration counts, and a shorthand counts for all its longhands",
"A class is kept as long as it is the last to set at least one ordinary property, whichever of its declarations sets it and in whatever position. A shorthand counts as setting each of its longhands, down to longhands that are reached through another shorthand, and a property that is not in the property table counts under its own name.",
["inputs"],"every rule, any number and order of declarations, every property name known or unknown",
"Tests use rules with few declarations and a few shorthands.",
[M,PR],[("expansion of a declaration to affected properties","merge.go: Merger.getAffectedProps"),("loop over declarations","merge.go: Merger.Merge")])
p("C10","An !important declaration is never lost to an ordinary one",
"A class that is the last to set some property with !important is kept, even if later classes set the property without it, and importance is a matter of the single declaration that carries it. Of two classes that do nothing but set a property with !important under the same circumstances only the later one is kept. Importance is recognised in any letter case, with or without white space after the exclamation mark.",
["inputs"],"every class string and every placement of !important on declarations",
"Tests use Tailwind's important modifier on a few classes, where the whole rule is important.",
[M],[("important winners kept besides ordinary winners","merge.go: Merger.Merge"),("recognition","merge.go: importantRegex")])
p("C11","The class that defines a custom property in use is kept",
"If a declaration that takes part in the result uses a custom property through var(), the last class that defines this custom property is kept, in whichever circumstances, in whichever position and through whichever of several var() the use occurs, also when the use is in the definition of another custom property.",
["inputs"],"every class string, every rule set with any number of uses and definitions of custom properties",
"Tests contain three such examples, all with one definition and one use.",
[M],[("uses and definitions recorded","merge.go: Merger.Merge, getCustomVarsInDec")])
p("C12","Merging changes nothing but the cache",
"Merging reads the rules and the property table and never writes to them, to the lists inside them or to any other state that outlives the call, except by storing its result in the cache.",
["inputs","histories"],"every merge with every rule set",
"A write through a shared slice shows only in later merges of other class lists or under concurrency.",
[M,R,PR],[("maps and slices local to the call","merge.go: Merger.Merge")])
p("C13","Adding a stylesheet either takes effect completely or reports an error",
"If adding a stylesheet fails - the text cannot be parsed or the reader fails - an error is returned and no rule of the merger has been added, replaced or removed. If no error is returned the whole input has been read and every rule in it has been recorded; an error of the reader or of the parser is never turned into success.",
["inputs","fault_sequences"],"every stylesheet, every position at which the reader or the parser fails",
"Tests add well-formed stylesheets from strings only.",
[M,R],[("error returned before rules are stored","merge.go: Merger.AddRules"),("end of input told from errors","internal/cascadia/rules.go: ExtractRules")])
p("C14","Adding a stylesheet always comes to an end",
"Adding a stylesheet returns as soon as the input ends, wherever in a rule, an at-rule or a skipped part that happens. Each step of reading it consumes input, so it cannot loop for ever on any input.",
["inputs"],"every stylesheet, truncated at any point",
"A hang needs an input that ends inside a particular construct; the tests use complete stylesheets.",
[R],[("end of input ends the loop","internal/cascadia/rules.go: ExtractRules")])
p("C15","A rule carries exactly the at-rules that enclose it",
"A rule inside @media or @supports blocks carries the conditions of all of them, outermost first, and a rule outside of any carries none, no matter what other blocks came before. Rules inside other at-rules (such as @keyframes or @font-face) are not recorded, and reading continues normally after such a block ends, however deeply blocks are nested.",
["inputs"],"every nesting and sequence of at-rule blocks",
"Tests use at most one at-rule around a rule and none after an ignored block.",
[R],[("stack of conditions and depth of the ignored block","internal/cascadia/rules.go: ExtractRules")])
p("C16","Every selector of a rule set is recorded with exactly its declarations",
"Each selector of a selector list yields a rule that has all declarations of that block, in order, ordinary and custom ones alike, and no declarations of any other block. A block whose selector cannot be parsed is skipped alone: it yields no rule, and the blocks before and after it are unaffected.",
["inputs"],"every sequence of rule sets, valid or not, with any number of selectors and declarations",
"Tests look at single rule sets.",
[R],[("accumulation between begin and end of a rule set","internal/cascadia/rules.go: ExtractRules, buildDeclaration, getSelectors")])
p("C17","No selector text can crash the selector parser",
"Parsing a selector never panics, whatever the text: every position it looks at lies inside the text, every type assertion and division it relies on is safe, and no path reaches an explicit panic. The same holds for the remaining code that turns stylesheet text into rules and class strings into results.",
["inputs"],"every byte string as selector, every class string",
"Out-of-range positions need texts that end in a particular place of a particular construct; tests sample a few dozen selectors.",
[PA,R,M,S],[("bounds tests before each look-ahead","internal/cascadia/parser.go: every parse function")],
[("position","0 <= position <= length of the text","internal/cascadia/parser.go: parser.i")])
p("C18","A selector is accepted only if all of it was understood",
"Parsing a selector or selector list without error means that the parser has consumed the whole text, and an error detected anywhere inside a selector, including inside the arguments of a pseudo-class, makes the whole parse fail. The parser comes to an end for every text: every repetition in it consumes text or leaves.",
["inputs"],"every byte string as selector",
"Leftover text and errors in nested constructs need particular malformed inputs.",
[PA,S],[("left-over test","internal/cascadia/selector.go: Parse, ParseWithPseudoElement, ParseGroup, ParseGroupWithPseudoElements"),("error propagation","internal/cascadia/parser.go")])
p("C19","What the parser accepts by name is written back under that name",
"Every pseudo-class, pseudo-element, attribute operator and combinator that the selector parser accepts is turned back into text by a name the parser reads as the same construct, so that two different constructs never get the same text. Arguments given to a pseudo-class are part of that text.",
["inputs"],"every keyword the parser knows and every kind of selector",
"The two tables are far apart in the code; tests write back a sample of selectors.",
[PA,SE],[("keyword switch","internal/cascadia/parser.go: parsePseudoclassSelector, parseAttributeSelector, parseSelector"),("String methods","internal/cascadia/serialize.go")])
p("C20","Every kind of selector the parser produces is handled everywhere",
"For every kind of selector the parser can produce, matching has a case that cannot run into an unsupported-kind failure, a class combined with any pseudo-class is treated as that class under that condition (so that two classes with the same pseudo-class conflict), and taking the selector apart to find its classes descends into every kind that requires its parts to match.",
["inputs"],"every selector kind times every consumer that switches over kinds",
"A kind missing from one table changes nothing for the kinds the tests use.",
[M,S,PC,PA],[("switches over selector kinds","merge.go: walk, classWithPseudo; pseudo_classes.go: IsPseudoElement, Match methods; selector.go: AttrSelector.Match, CombinedSelector.Match")])
p("C21","Selector specificity follows the CSS definition",
"The specificity of a selector is the component-wise sum over its parts: an id counts (1,0,0); a class, attribute or pseudo-class (0,1,0); a type or pseudo-element (0,0,1); the universal selector and :where() nothing; :is(), :not() and :has() count as the greatest of their arguments. Comparison is lexicographic and strict.",
["inputs"],"every selector, in particular every combination of arguments and every ordering of specificities",
"Tests check about twenty selectors.",
[SP,S,PC],[("Specificity methods, Less, Add","internal/cascadia/specificity.go, selector.go, pseudo_classes.go")])
p("C22","The property table is sound",
"Each shorthand in the property table stands for longhands it really sets: all the longhands defined for it by CSS, and none that it does not set. Every other property stands for exactly itself, and the expansion of a shorthand never leads back to itself.",
["configurations"],"every entry of the property table",
"The tests look at three of more than five hundred entries.",
[PJ,PR],[("embedded table","internal/props/gen/properties.json"),("reading it","internal/props/properties.go: GetProperties, computedProps")])
p("C23","Mergers are independent and nothing but construction can stop the process",
"No call on a merger or cache ends the process or depends on state shared with another merger: package-level variables are only set during initialisation, and each merger has its own rules. Creating a merger fails only if the embedded property table is unreadable.",
["histories","inputs"],"every program using any number of mergers",
"Cross-talk between instances needs two mergers with different rules in one process.",
[M,C,R,PR],[("no writable package-level state","merge.go, cache.go, internal/*")])
p("C24","Each class in a selector leads to the rule, under its exact name",
"Adding a rule makes it the rule of every class its selector requires - alone, in a compound, on any side of a combinator, inside :is() or :where() - and of no other class; classes that occur only inside :not() or :has() are not affected. The class name under which it is found is the name as decoded by the selector parser, neither changed in case nor otherwise.",
["inputs"],"every selector structure at any nesting, every class name",
"Tests use a few selector shapes, most of them a single class.",
[M,PA],[("decomposition of selectors","merge.go: walk, Merger.AddRules"),("names taken from the text","internal/cascadia/parser.go: parseClassSelector")])
p("C25","With keep-order the result is in input order",
"When the merger was created to keep the order, the classes of the result occur in the order of their last occurrence in the input.",
["inputs"],"every class string of two or more classes with the keep-order option on",
"The relative order of every pair of classes matters; tests have a few strings.",
[M],[("reordering by input position","merge.go: sortSubset")])
p("C26","Later rules replace earlier ones for the same class, and only for it",
"When several rules name the same class, in one stylesheet or in stylesheets added one after the other, the last one is the rule of that class. Adding a stylesheet keeps the rules of all classes it does not mention.",
["histories","inputs"],"every sequence of stylesheets",
"Needs several additions with overlapping classes; tests add one stylesheet per merger.",
[M,R],[("overwrite in stylesheet order","merge.go: Merger.AddRules"),("rules appended in order","internal/cascadia/rules.go: ExtractRules")])
p("C27","Selectors are immutable values",
"Matching, printing, inspecting or ranking a selector never writes to the selector, its parts, or the document, so that rules can be shared freely between goroutines and merges.",
["histories","schedules"],"every method of every selector kind and of rules",
"A hidden write only shows under concurrency or repeated use.",
[S,PC,SE,SP,R],[("value receivers and read-only methods","internal/cascadia/*.go")])
# not claimed
p("C28","A merged class list renders like the full list in source order",
"For any document, the elements with the merged class list look as they would if the conflicting classes had been resolved by their order in the class string, under any surrounding markup.",
["inputs","programs"],"every document, stylesheet and class list",
"Rendering is outside the repository.",
[M],[("whole merge algorithm","merge.go")])
p("C29","Merging a merged class list changes nothing",
"Merging the result of a merge again gives the same result.",
["inputs"],"every class string and every rule set",
"Equality of two runs on runtime values.",
[M],[("whole merge algorithm","merge.go")])
p("C30","Selectors match the nodes CSS says they match",
"A selector matches exactly those nodes of an HTML document that CSS defines, for every document, including the arithmetic of :nth-child() and text and attribute comparison.",
["inputs"],"every document and selector",
"Tests have a fixed list of documents.",
[S,PC],[("Match methods","internal/cascadia/selector.go, pseudo_classes.go")])
p("C31","Every selector text survives printing and parsing again",
"Printing a parsed selector and parsing the result gives an equal selector for every text, whatever characters names and values contain.",
["inputs"],"every selector text",
"Character-level round trip over all strings.",
[PA,SE],[("escape","internal/cascadia/serialize.go: escape")])
p("C32","Deeply nested input uses bounded stack",
"No nesting depth of a selector or stylesheet exhausts the stack.",
["inputs"],"every nesting depth",
"Needs inputs of many megabytes.",
[PA],[("recursive descent","internal/cascadia/parser.go")])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
