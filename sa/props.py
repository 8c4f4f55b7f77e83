"""Property texts, the rule that decides each, and what the rule assumes.

properties.jsonl and MANIFEST.json are generated from this table by tools/gen.py.
"""

COMMON = ["the clang 18 front end resolves /repo/src as the repository's C++20 build does",
          "standard-library calls behave as modelled in sa/stdlib.py; a call without a model is havocked",
          "unsigned arithmetic of positions does not wrap (buffers stay below 2^31 bytes)"]

PROPS = []


def P(id, title, statement, over, text, why, files, mechanism, rule=None, technique="", note="", explanation="",
      assumptions=(), na=None, state=(), observe=()):
    PROPS.append({
        "id": id, "title": title, "statement": statement, "over": over, "text": text, "why": why, "files": files,
        "mechanism": mechanism, "rule": rule, "technique": technique, "note": note,
        "explanation": explanation or note, "assumptions": COMMON + list(assumptions), "na": na,
        "state": list(state), "observe": list(observe)})


P("C01", "A reset parser behaves exactly like a newly built one",
  "After a parser is reset (or given a new reader), parsing an input yields the events, variables, positions and "
  "errors a newly constructed parser with the same schema would yield for it. Nothing of the previous input, "
  "whether it was parsed completely, partially or with an error, influences the result.",
  ["histories", "inputs"],
  "every sequence of inputs parsed completely, partially or up to an error before the reset",
  "The tests never reset a parser; the property ranges over all states a parser can be left in.",
  ["src/log_surgeon/LogParser.cpp", "src/log_surgeon/ReaderParser.cpp", "src/log_surgeon/BufferParser.cpp",
   "src/log_surgeon/Lexer.tpp", "src/log_surgeon/ParserInputBuffer.cpp", "src/log_surgeon/Buffer.hpp",
   "src/log_surgeon/LogEvent.cpp", "src/log_surgeon/LogParserOutputBuffer.hpp", "src/log_surgeon/LALR1Parser.tpp"],
  [("reset chain of parser, lexer, input buffer", "src/log_surgeon/LogParser.cpp LogParser::reset"),
   ("reset of the event view before each event", "src/log_surgeon/ReaderParser.cpp ReaderParser::parse_next_event")],
  rule=("reset", "rule"),
  technique="write-effect analysis + abstract interpretation of the reset functions",
  note="Every field that some function reachable from parsing may write is shown to have, after the reset, a value "
       "independent of all such fields; reset and construction of the leaf buffers agree; the event view is reset "
       "before each parse; the saved pending token is unreadable without its flag.")

AI = "abstract interpretation (symbolic positions, difference facts) over the AST, no execution"

P("C02", "Growing a buffer keeps all pending data and every saved position",
  "When the input buffer or the token buffer grows, its content (in logical order), the positions saved by the "
  "lexer and the parser, and the storage that existing tokens point into all stay valid and denote the same "
  "characters/tokens as before; after the growth the next read fills only unused space. The size doubles.",
  ["inputs", "histories"],
  "every position in either half of the buffer, both orders of the halves, every buffer size",
  "Growth needs a single token longer than the buffer at a particular phase of the double buffer; tests grow at one "
  "phase only.",
  ["src/log_surgeon/LogParser.cpp", "src/log_surgeon/ParserInputBuffer.cpp", "src/log_surgeon/Buffer.hpp",
   "src/log_surgeon/Lexer.tpp", "src/log_surgeon/LogParserOutputBuffer.cpp"],
  [("input growth", "src/log_surgeon/ParserInputBuffer.cpp ParserInputBuffer::increase_capacity"),
   ("mapping of saved positions", "src/log_surgeon/Lexer.tpp Lexer::increase_buffer_capacity, flip_states"),
   ("output growth", "src/log_surgeon/LogParserOutputBuffer.cpp LogParserOutputBuffer::advance_to_next_token")],
  rule=("growth", "rule"), technique=AI,
  note="LogParser::increase_capacity and advance_to_next_token are interpreted for every order of the halves and every "
       "region of a position; copied ranges, new positions, kept fields and kept storages are compared with the "
       "logical layout of the double buffer.",
  assumptions=["buffer sizes are even (initial sizes are powers of two and growth doubles)"])

P("C03", "Input bytes are never overwritten before use, lost, or read twice",
  "Each read of a log fills exactly the half of the input buffer whose characters have all been consumed, in the order "
  "of the stream; the scanner returns every byte read exactly once and in order, reports the end of input only after "
  "the last byte, and asks for data otherwise; a read error or end of file is passed on, not taken for data.",
  ["inputs", "schedules"],
  "every fill level, consumed position, half and result of the reader (short reads, end of file, errors)",
  "Depends on how read sizes, token boundaries and buffer halves line up; tests use inputs smaller than a half.",
  ["src/log_surgeon/ParserInputBuffer.cpp", "src/log_surgeon/LogParser.cpp", "src/log_surgeon/ReaderParser.cpp"],
  [("safe read", "src/log_surgeon/ParserInputBuffer.cpp ParserInputBuffer::read_if_safe, read_is_safe"),
   ("character supply", "src/log_surgeon/ParserInputBuffer.cpp ParserInputBuffer::get_next_character"),
   ("consumed position", "src/log_surgeon/LogParser.cpp LogParser::parse"),
   ("grow and read again", "src/log_surgeon/ReaderParser.cpp ReaderParser::parse_next_event")],
  rule=("refill", "rule"), technique=AI,
  note="read_into_input, get_next_character and ReaderParser::parse_next_event are interpreted for every region of the "
       "consumed position; LogParser::parse only moves the consumed position when an event is complete, to the last "
       "byte of its last token.",
  assumptions=["the reader writes at most the number of bytes it is asked for, at the address it is given"])

P("C05", "The tokens handed out cover the input exactly once and in order",
  "Successive tokens of the lexer are contiguous: each starts where the previous one ended, text that matches no rule "
  "comes out as an uncaught token, and only the end token is empty. The parser stores every token exactly once, in "
  "order, in the event it belongs to; a token split at a newline loses no byte.",
  ["inputs", "histories"],
  "every sequence of scan calls and token kinds, from every state the lexer can be left in",
  "A lost or duplicated byte needs a particular sequence of matches, failures and interruptions.",
  ["src/log_surgeon/Lexer.tpp", "src/log_surgeon/LogParser.cpp", "src/log_surgeon/LogParserOutputBuffer.cpp"],
  [("scan", "src/log_surgeon/Lexer.tpp Lexer::scan"), ("token storage", "src/log_surgeon/LogParser.cpp LogParser::parse")],
  rule=("scanner", "rule05"), technique=AI,
  note="Lexer::scan is interpreted from fresh, pending and interrupted states with an arbitrary DFA; LogParser::parse "
       "with an arbitrary token stream (all kinds, with and without leading newline).")

P("C06", "Events begin and end exactly at the boundaries the schema's timestamps define",
  "A log event begins at a timestamp at the start of a line (or, when the input has none, at each line); the event ends "
  "right before the next such start, or with its newline when there is no timestamp, or at the end of the input; the "
  "newline before a timestamp belongs to the ending event and the rest of the token to the next one.",
  ["inputs", "histories"],
  "every sequence of token kinds from every parser state",
  "Depends on sequences of token kinds across events, including the pending token carried between calls.",
  ["src/log_surgeon/LogParser.cpp"],
  [("event boundaries", "src/log_surgeon/LogParser.cpp LogParser::parse"),
   ("pending start", "src/log_surgeon/LogParser.hpp LogParser::m_has_start_of_log, m_start_of_log_message")],
  rule=("events", "boundaries"), technique=AI,
  note="LogParser::parse is interpreted with an arbitrary token stream; the set of token kinds that end or continue an "
       "event, and the flags set from the first token, are compared with the rule above.")

P("C11", "The scanner's line numbers count the newlines before each token",
  "Each newline character read moves the line number up by one, going back to the end of a match restores the line number "
  "of that position, and a match, uncaught text or end token carries the line number recorded for it; an interruption of "
  "the scan or skipping to the next token start does not change it.",
  ["inputs", "histories"],
  "every sequence of characters, matches, failures and interruptions",
  "Line numbers go wrong only after specific backtracking across newlines or an interrupted scan.",
  ["src/log_surgeon/Lexer.tpp"],
  [("scan", "src/log_surgeon/Lexer.tpp Lexer::scan")],
  rule=("scanner", "lines"), technique=AI,
  note="The line fields after each pass over the scan loop are compared with the decision table of the scanner.")

P("C26", "Matches end only at delimiters; a failed match resumes at the next token start",
  "The scanner extends a match as long as the automaton has a transition, remembers the last accepting position that is "
  "followed by a delimiter (or the end of the input), and hands that match out with the types of its state. Without a "
  "match it skips to the next delimiter at which a token can start. A scan starts in the automaton's root state at the read "
  "position; one interrupted for more data goes on in the state it stopped in, and the interruption changes nothing else.",
  ["inputs", "schedules"],
  "every automaton, every character sequence, interruption at every character",
  "Interruption at an arbitrary character of an arbitrary match attempt cannot be sampled.",
  ["src/log_surgeon/Lexer.tpp"],
  [("scan", "src/log_surgeon/Lexer.tpp Lexer::scan"),
   ("start of file", "src/log_surgeon/Lexer.tpp Lexer::prepend_start_of_file_char")],
  rule=("scanner", "rule26"), technique=AI,
  note="Each pass over the scan loop is compared, field by field, with the decision table of a longest-match scanner; the "
       "automaton and the buffer are arbitrary.",
  assumptions=["with delimiters, the root state has a transition on newline (decided by C19)"])

P("C28", "Token text accessors agree on the bytes, also for wrapped tokens",
  "For a token that covers [start, end) of a buffer (continuing at the buffer's beginning when end < start), "
  "to_string, to_string_view and the sequence get_char(0..) are the same bytes in the same order, get_length is "
  "their number, and get_delimiter is the first of them. Asking repeatedly gives the same answer.",
  ["inputs"],
  "every start, end and buffer size, wrapped or not, every index",
  "Tokens wrap only when they straddle the end of the double buffer; tests hardly ever see one.",
  ["src/log_surgeon/Token.cpp", "src/log_surgeon/Token.hpp"],
  [("text of a token", "src/log_surgeon/Token.cpp Token::to_string_view, Token::to_string"),
   ("bytes and length", "src/log_surgeon/Token.cpp Token::get_char, Token::get_length, Token::get_delimiter")],
  rule=("tokens", "rule"), technique=AI,
  note="The accessors are interpreted for tokens that do and do not wrap; the ranges of buffer addresses they return "
       "are compared with the range the token covers.",
  assumptions=["a token has fewer than 256 bytes where get_char is used (its index is 8 bits)"])

P("C07", "A deep copy of an event is equal to it and independent of the parser",
  "LogEventView::deep_copy yields an event whose tokens are in the same slots with the same text, type ids and lines, "
  "with the same timestamp presence, delimiter flag, multi-line flag and variables per type, while all of its text "
  "lives in the copy's own buffer, which covers exactly the tokens one after another: later parsing changes nothing "
  "in the copy.",
  ["inputs", "histories"],
  "every number of tokens, with and without timestamp, wrapped tokens, every token length",
  "Tests compare few copies and never keep one over further parsing with a wrapped token.",
  ["src/log_surgeon/LogEvent.cpp", "src/log_surgeon/LogEvent.hpp", "src/log_surgeon/LogParserOutputBuffer.hpp"],
  [("copying of the tokens", "src/log_surgeon/LogEvent.cpp LogEvent::LogEvent(LogEventView const&)")],
  rule=("views", "deep_copy"), technique=AI,
  note="The copying constructor is interpreted for a view with any number of tokens. The walks over the slots must run "
       "from the first to the last slot used; the stored token, the copied bytes, the buffer size and the list of "
       "variables are compared with the source token by token.",
  assumptions=["C28 for the text and length of a source token"])

P("C08", "Event text, timestamp and variable lists reflect exactly its tokens",
  "For every event, to_string is the concatenation of the text of all its tokens in order (the timestamp included if "
  "there is one, the empty slot excluded if not), get_timestamp is the token in the timestamp slot or null without "
  "timestamp, and get_variables(t) lists, in order, exactly the tokens whose first type id is t.",
  ["inputs"],
  "every number of tokens, with and without timestamp, all type ids",
  "Unit tests check a handful of short events; the slots differ with and without timestamp.",
  ["src/log_surgeon/LogEvent.cpp", "src/log_surgeon/LogEvent.hpp", "src/log_surgeon/LogParser.cpp"],
  [("text", "src/log_surgeon/LogEvent.cpp LogEventView::to_string"),
   ("timestamp", "src/log_surgeon/LogEvent.cpp LogEventView::get_timestamp"),
   ("variables", "src/log_surgeon/LogParser.cpp LogParser::generate_log_event_view_metadata")],
  rule=("views", "rule08"), technique=AI,
  note="The functions are interpreted for an output buffer with any number of tokens; their loops must walk the slots in "
       "use from the first to the last, adding or filing each token once under its own type.",
  assumptions=["C28 for the text of a token", "C01 for the lists being empty before the event"])

P("C29", "The multi-line flag is set exactly for events that span several lines",
  "An event is reported as multi-line if and only if it has a timestamp and a token other than the last one starts "
  "with a newline, i.e. some text follows its first line.",
  ["inputs"],
  "every number of tokens and every position of the newline-started tokens",
  "The flag depends on the position of the first newline among all tokens; tests use one arrangement.",
  ["src/log_surgeon/LogParser.cpp", "src/log_surgeon/LogEvent.hpp"],
  [("multi-line flag", "src/log_surgeon/LogParser.cpp LogParser::generate_log_event_view_metadata")],
  rule=("views", "multiline"), technique=AI,
  note="The function is interpreted with a ghost variable holding the first slot after the timestamp slot whose token "
       "starts with a newline; at the exit the flag must equal `that slot exists and is not the last one`.",
  assumptions=["the flag is false beforehand (C01)"])

P("C30", "The log type is the event text with each variable replaced by its name",
  "get_logtype is, over the tokens after the timestamp in order: the text itself for uncaught text, <name> for a "
  "newline token, and the token's delimiter followed by <name> for any other variable, where name is the schema name of "
  "its first type id.",
  ["inputs"],
  "every number and mix of token types, with and without timestamp",
  "The log type is compared in no test; it must hold for every sequence of tokens.",
  ["src/log_surgeon/LogEvent.cpp"],
  [("log type", "src/log_surgeon/LogEvent.cpp LogEventView::get_logtype")],
  rule=("views", "logtype"), technique=AI,
  note="get_logtype is interpreted for any number of tokens; per kind of token the text a pass of its loop appends is "
       "compared with the specified pieces.")

P("C04", "A read error reaches the caller and is never taken for data or the end",
  "Whatever error code other than end of file the reader returns, at the first read of an event or after any growth, "
  "parse_next_event returns that very code without parsing or reading further, and the input is not marked finished. "
  "End of file (or a short read) alone marks the input finished. No error code is dropped on the way from the lexer "
  "and the input buffer to the caller.",
  ["fault_sequences", "histories"],
  "every error code, at every read of every event",
  "Tests use readers that never fail; a failure must be injected at each read of a sequence.",
  ["src/log_surgeon/ReaderParser.cpp", "src/log_surgeon/ParserInputBuffer.cpp", "src/log_surgeon/LogParser.cpp",
   "src/log_surgeon/Buffer.hpp", "src/log_surgeon/Lexer.tpp"],
  [("error of the reader", "src/log_surgeon/ReaderParser.cpp ReaderParser::parse_next_event"),
   ("finished flag", "src/log_surgeon/ParserInputBuffer.cpp ParserInputBuffer::read")],
  rule=("front", "rule04"), technique=AI + "; discarded-result analysis over the call graph",
  note="parse_next_event is interpreted with every read and parse returning each kind of result; flags in the abstract "
       "state record what happened last and the loop is analysed per valuation. read_into_input is interpreted for each "
       "result of the reader. On the call graph below both parse_next_event no ErrorCode result is discarded.")

P("C09", "done() becomes true exactly when the final event was returned",
  "ReaderParser::done and BufferParser::done are false until the event that ends at the end of the input has been "
  "returned successfully and true right after it; neither an error nor any earlier event makes them true.",
  ["inputs", "fault_sequences", "histories"],
  "every sequence of events, growths, and errors",
  "Applications loop on done(); a wrong value loses the last event or parses past the end on particular inputs only.",
  ["src/log_surgeon/ReaderParser.cpp", "src/log_surgeon/BufferParser.cpp", "src/log_surgeon/LogParser.cpp"],
  [("done flag of the readers", "src/log_surgeon/ReaderParser.cpp parse_next_event"),
   ("done flag for buffers", "src/log_surgeon/BufferParser.cpp parse_next_event"),
   ("end of parsing", "src/log_surgeon/LogParser.cpp LogParser::parse")],
  rule=("front", "rule09"), technique=AI,
  note="Both parse_next_event are interpreted with every parse result and action; LogParser::parse is interpreted for "
       "every class of tokens and must finish exactly on the end token.")

P("C10", "The offset of BufferParser always points at the first unreturned byte",
  "parse_next_event(buf, size, offset, ..) parses buf[offset, size) and nothing else. After success the offset is where "
  "scanning stopped behind the event. If the event is unfinished or an error occurs, the offset is the start of the first "
  "token of the event (unchanged when there is none), the parser is reset, and the code is returned, so that the same "
  "call with more data parses the event again from its start.",
  ["inputs", "histories"],
  "every buffer, size and offset, events with and without timestamp, every result of the parse",
  "The tests pass whole inputs; the resumption offset depends on the token slot layout.",
  ["src/log_surgeon/BufferParser.cpp", "src/log_surgeon/LogParser.hpp", "src/log_surgeon/ParserInputBuffer.cpp",
   "src/log_surgeon/Buffer.hpp"],
  [("offset", "src/log_surgeon/BufferParser.cpp BufferParser::parse_next_event"),
   ("window on the caller's buffer", "src/log_surgeon/ParserInputBuffer.cpp set_storage, get_next_character")],
  rule=("front", "rule10"), technique=AI,
  note="parse_next_event is interpreted with each result of the parse and each layout of the output buffer; the state of "
       "the input buffer at the parse and the offset at the exit are compared with the specification. get_next_character "
       "is interpreted on the window it is given.")

P("C15", "Each regex operator's automaton accepts exactly the operator's language",
  "The NFA built for a schema accepts, from its root, exactly the words of the rules' patterns, each ending in one state "
  "that accepts with the id of its rule: concatenation, alternative, repetition {m,n}, capture, literal, and character "
  "group accept their language over their operands, leave the root as it was, add no transition back into the start, "
  "cross the tags of alternatives not taken and of captures in the right order, and a (negated) group accepts exactly "
  "the characters (not) listed.",
  ["inputs"],
  "every operand of every operator, up to the repetition counts analysed (4, thorough 6), groups of up to 3 ranges with "
  "arbitrary bounds, every interval of bytes",
  "A pattern that matches too much or too little shows on particular nestings and counts; the tests compare a few "
  "serialised automata.",
  ["src/log_surgeon/finite_automata/RegexAST.hpp", "src/log_surgeon/finite_automata/RegexNFA.hpp",
   "src/log_surgeon/finite_automata/RegexNFAState.hpp", "src/log_surgeon/LexicalRule.hpp"],
  [("operators", "src/log_surgeon/finite_automata/RegexAST.hpp add_to_nfa of every operator, merge, complement"),
   ("transitions", "src/log_surgeon/finite_automata/RegexNFAState.hpp add_interval"),
   ("automaton", "src/log_surgeon/finite_automata/RegexNFA.hpp; src/log_surgeon/LexicalRule.hpp add_to_nfa")],
  rule=("nfa", "rule15"), technique=AI,
  note="Each add_to_nfa is interpreted with operands that are opaque letters obeying the same contract; the graph left in "
       "the abstract store is compared with the operator's expression by subset construction, so whole patterns follow by "
       "structural induction. Groups are interpreted over symbolic range bounds, one state per order of the bounds.",
  assumptions=["byte automata (the UTF-8 automaton is instantiated by tests only)",
               "an operand of a repetition with minimum 0 does not loop on its end state: the schema grammar builds no such "
               "repetition (C12)"])

P("C12", "A schema file is turned into exactly the rules its text describes",
  "Parsing a schema yields the delimiters and, in the order of the text, one rule per named variable whose pattern is the "
  "one written: escapes (\\n \\t \\s \\d ...), '.', bracket expressions with ranges and '^', '|', '*', '+', '{n}', '{n,m}', "
  "parentheses, named captures, and literal characters mean what the schema syntax documents; comments and blank lines "
  "contribute nothing; inverted ranges and counts are refused.",
  ["inputs"],
  "every schema text: every production of the schema grammar with arbitrary operands",
  "The tests parse a few schemas; each production combines with every other one, and a wrong one still yields a parser.",
  ["src/log_surgeon/SchemaParser.cpp", "src/log_surgeon/LALR1Parser.tpp", "src/log_surgeon/LALR1Parser.hpp",
   "src/log_surgeon/LALR1Parser.cpp", "src/log_surgeon/finite_automata/RegexAST.hpp"],
  [("tokens of a schema", "src/log_surgeon/SchemaParser.cpp SchemaParser::add_lexical_rules"),
   ("grammar and its actions", "src/log_surgeon/SchemaParser.cpp SchemaParser::add_productions"),
   ("reductions", "src/log_surgeon/LALR1Parser.tpp parse_symbol, parse_advance; LALR1Parser.hpp NonTerminal")],
  rule=("schema", "rule12"), technique=AI,
  note="The tokens and productions the parser registers are collected by interpreting the registering functions and compared "
       "with the documented syntax; each production's action is interpreted with opaque children and the syntax tree it "
       "leaves is compared with the production's meaning; a reduction hands the popped children over in order, and gives up no text of "
       "the token it has seen but not used.",
  assumptions=["the LALR(1) tables follow the grammar (decided by C34)",
               "a repetition count in a schema is below 2^32"])

P("C13", "'.' never matches a delimiter, and delimiter checks see every character",
  "Removing the delimiters from a pattern's wildcards leaves each '.' with exactly the characters that are not "
  "delimiters and changes nothing else; the characters a pattern may contain are exactly those some literal or group "
  "of it accepts, at every depth of the pattern.",
  ["inputs"],
  "every pattern and every set of up to 3 delimiters of arbitrary values and order",
  "A wildcard keeping one delimiter swallows the text behind it for particular schemas and inputs only.",
  ["src/log_surgeon/finite_automata/RegexAST.hpp"],
  [("narrowing", "src/log_surgeon/finite_automata/RegexAST.hpp remove_delimiters_from_wildcard"),
   ("characters of a pattern", "src/log_surgeon/finite_automata/RegexAST.hpp set_possible_inputs_to_true")],
  rule=("ast", "rule13"), technique=AI,
  note="The group's functions are interpreted over symbolic range bounds and delimiters, one abstract state per order of "
       "the values; every composite node hands each visitor to all of its operands.",
  assumptions=["negated groups are checked against the complement of their ranges up to cUnicodeMax"])

P("C14", "A copied pattern equals its original and shares no node with it",
  "clone() of any regex node yields a node of the same kind whose operands are copies of the original's, with the same "
  "characters, ranges, flags, counts and capture tags; no pointer in the copy leads into the original, so the copy "
  "survives the original and changes to one do not show in the other.",
  ["inputs", "histories"],
  "every pattern: every node class with arbitrary operands and members",
  "The timestamp pattern is used twice through copies; a lost flag or shared node shows only for patterns that use it.",
  ["src/log_surgeon/finite_automata/RegexAST.hpp"],
  [("copy constructors and clone of every node class", "src/log_surgeon/finite_automata/RegexAST.hpp")],
  rule=("ast", "rule14"), technique=AI,
  note="clone() of every concrete class is interpreted; the new object's fields are compared with the original's, pointers "
       "to nodes and tags having to be clones or to point into the copy.")

P("C25", "Capture tags of every pattern node list exactly the captures below it",
  "Each pattern node's positive tags are exactly the captures in its operands, each once and owned by this very tree; the "
  "negative tags given to an alternative are exactly the captures of the other alternative, and reach every operand "
  "they are meant for.",
  ["inputs"],
  "every pattern built from any operands",
  "A missing or extra tag makes a capture report a stale position for particular alternatives only.",
  ["src/log_surgeon/finite_automata/RegexAST.hpp"],
  [("tags of the constructors", "src/log_surgeon/finite_automata/RegexAST.hpp RegexASTOr, RegexASTCat, RegexASTMultiplication, RegexASTCapture")],
  rule=("ast", "rule25"), technique=AI,
  note="Each node constructor is interpreted with operands whose tag lists are opaque; the list it stores is compared with "
       "the union of its operands' lists, and the tags passed by add_to_nfa with those the alternative did not take.")

P("C18", "Rule names and symbol ids correspond one to one and never change",
  "Ids are given consecutively, each name has one id and each id that name; adding a rule or production for a known name "
  "keeps its id and registers the pattern under it; the reserved ids carry the reserved names; get_symbol_id and "
  "get_id_symbol return what was registered, and nothing for unknown names.",
  ["inputs", "histories"],
  "every sequence of rules and productions with new and repeated names",
  "A swapped or reused id makes variables appear under another rule's name, only for particular schemas.",
  ["src/log_surgeon/Parser.tpp", "src/log_surgeon/LALR1Parser.tpp", "src/log_surgeon/Lexer.tpp",
   "src/log_surgeon/LogParser.cpp", "src/log_surgeon/Constants.hpp"],
  [("reserved symbols", "src/log_surgeon/Parser.tpp Parser::Parser"),
   ("rules", "src/log_surgeon/Parser.tpp add_rule, src/log_surgeon/LALR1Parser.tpp add_rule, add_production"),
   ("lookups", "src/log_surgeon/LogParser.cpp get_symbol_id, get_id_symbol")],
  rule=("symbols", "rule18"), technique=AI,
  note="Every function that writes the two maps is interpreted with maps of unknown old entries and listed new ones; at its "
       "exits the new entries are inverse to each other, have the next ids, and no old entry has changed.")

P("C19", "The lexer's rules are the schema's, delimited, checked, and in order",
  "From a schema, LogParser builds: newLine first; for each timestamp rule a firstTimestamp anchored at the start of the "
  "log and a newLineTimestamp anchored at a newline; for each other rule its pattern behind one delimiter, in the order "
  "of the schema, '.' excluding delimiters. A rule that may contain a delimiter is refused, and only such a rule. "
  "Delimiters are those of the last delimiters line, and the start of the log is always one. Building a parser adds the rules "
  "of the given schema (or of the given schema file) and then generates the automata, before they are used.",
  ["inputs"],
  "every schema of up to 3 rules of either kind in any order with arbitrary patterns, and 1 to 3 delimiters lines",
  "The tests use a single schema; the order of steps matters only for patterns with wildcards or delimiters.",
  ["src/log_surgeon/LogParser.cpp", "src/log_surgeon/Lexer.tpp", "src/log_surgeon/Lexer.hpp"],
  [("rules", "src/log_surgeon/LogParser.cpp LogParser::add_rules"),
   ("delimiters", "src/log_surgeon/Lexer.tpp Lexer::add_delimiters"),
   ("construction", "src/log_surgeon/LogParser.cpp LogParser::LogParser")],
  rule=("symbols", "rule19"), technique=AI,
  note="add_rules is interpreted on schema objects with opaque patterns; the rules handed to the lexer are described as terms "
       "and compared, in order, with those the schema implies, each refusal with the possible characters of its pattern.",
  assumptions=["a timestamp pattern may contain delimiters (documented)"])

P("C16", "The scanner's automaton simulates the rules' automaton exactly",
  "The deterministic automaton's root stands for the epsilon closure of the NFA's root; from a set of NFA states, each byte "
  "leads to exactly the closure of the states reachable on that byte, or nowhere; a state accepts exactly the variables of "
  "the accepting NFA states in its set; every reachable set gets one state and is expanded once; next() returns what was "
  "stored.",
  ["inputs"],
  "every NFA (any states, transitions, tags and cycles)",
  "A lost or extra transition shows only for particular combinations of rules and bytes; tests use a few patterns.",
  ["src/log_surgeon/Lexer.tpp", "src/log_surgeon/finite_automata/RegexDFA.hpp",
   "src/log_surgeon/finite_automata/RegexDFA.tpp", "src/log_surgeon/finite_automata/RegexNFA.hpp"],
  [("closure and subset construction", "src/log_surgeon/Lexer.tpp Lexer::epsilon_closure, Lexer::nfa_to_dfa"),
   ("states", "src/log_surgeon/finite_automata/RegexDFA.hpp RegexDFAState; RegexDFA.tpp RegexDFA::new_state"),
   ("generate", "src/log_surgeon/Lexer.tpp Lexer::generate, generate_reverse")],
  rule=("dfa", "rule16"), technique=AI + " with work-list invariants",
  note="Each work-list loop is interpreted for one arbitrary round over unknown containers: on every path the item taken must be "
       "handled fully, everything put in is remembered, and the loop may end only when nothing is left - the inductive steps "
       "of the algorithm's correctness.",
  assumptions=["termination of the work lists is not decided", "the byte automaton, not the UTF-8 one, is the subject"])

P("C17", "A text several rules match gets the id of the earliest rule of the schema",
  "When one DFA state accepts for several rules, the ids it lists are in the order in which the rules were given, whatever "
  "the addresses of the automaton's states, so the same schema and input always give the same variable types.",
  ["inputs", "histories"],
  "every order of the addresses of the accepting states of three rules that match the same text",
  "The order used to depend on heap addresses; a test sees one allocation history, which usually happens to be the right one.",
  ["src/log_surgeon/Lexer.tpp", "src/log_surgeon/finite_automata/RegexNFA.hpp"],
  [("order of accepting states", "src/log_surgeon/Lexer.tpp Lexer::nfa_to_dfa create_dfa_state"),
   ("rules", "src/log_surgeon/finite_automata/RegexNFA.hpp RegexNFA::RegexNFA")],
  rule=("dfa", "rule17"), technique=AI + " over all address orders",
  note="The NFA constructor is interpreted for three rules; the DFA state made of their accepting states is then interpreted for "
       "every permutation of the states' addresses and its list of ids compared with the order of the rules.",
  assumptions=["three rules stand for any number: the ids are ordered by comparisons of two"])

P("C31", "The intersection of two automata finds exactly the variables both can match",
  "get_intersect explores every pair of states both automata can reach on a common text, starting from the two roots and "
  "following every byte, visits each pair once, and returns exactly this automaton's variables of the pairs in which both "
  "states accept; pairs are told apart by both of their states.",
  ["inputs"],
  "every two automata, including ones with cycles and shared states",
  "A pruned pair loses variables only for particular pairs of patterns; the unit test has about ten.",
  ["src/log_surgeon/finite_automata/RegexDFA.hpp", "src/log_surgeon/finite_automata/RegexDFA.tpp"],
  [("search", "src/log_surgeon/finite_automata/RegexDFA.tpp RegexDFA::get_intersect"),
   ("successors and order of pairs", "src/log_surgeon/finite_automata/RegexDFA.hpp RegexDFAStatePair")],
  rule=("dfa", "rule31"), technique=AI + " with work-list invariants",
  note="One arbitrary round of the search and of the loop over bytes is interpreted with unknown containers; the order of pairs is "
       "compared for all nine relations of their states.",
  assumptions=["termination of the search is not decided"])

P("C20", "A text that is not a schema is refused with an exception",
  "Parsing a schema returns a tree exactly when the parser accepts the whole text, which is read and taken token by token "
  "from a fresh start; in every other case - no action for a token, a scanning error, a file that cannot be opened - an "
  "exception leaves it. Schema::add_variable adds exactly the first variable of its text at the position asked for, and "
  "throws when the text has no variable or the position does not exist.",
  ["inputs"],
  "every text, every table of actions, every position, and lists of 0 to 3 variables",
  "Invalid schemas are hardly tested, and a missed refusal is undefined behaviour or a schema silently cut short.",
  ["src/log_surgeon/LALR1Parser.tpp", "src/log_surgeon/SchemaParser.cpp", "src/log_surgeon/SchemaParser.hpp",
   "src/log_surgeon/Schema.cpp", "src/log_surgeon/Schema.hpp"],
  [("parsing", "src/log_surgeon/LALR1Parser.tpp parse, parse_symbol, get_next_symbol"),
   ("schema files", "src/log_surgeon/SchemaParser.cpp try_schema_file, generate_schema_ast"),
   ("programmatic schemas", "src/log_surgeon/Schema.cpp add_variable, src/log_surgeon/SchemaParser.hpp add_schema_var")],
  rule=("malformed", "rule20"), technique=AI,
  note="parse is interpreted with every outcome of each step; returning and throwing paths are compared with whether the text was "
       "accepted. add_variable and add_schema_var are interpreted for listed variables and every class of positions.",
  assumptions=["the table of actions itself is not decided"])

P("C24", "Readers hand out every byte once and report end and errors as what they are",
  "FileReader::read reports as many bytes as fread put in the buffer, end only with none and at end of file, a stdio error "
  "as an error, and nothing when no file is open; try_read_to_delimiter appends exactly the line read, without its "
  "delimiter unless kept, and tells end from error; try_open opens the named file for reading; close and destruction close "
  "an open file exactly once. The schema readers hand out the string or file from its start, each byte once, then the end.",
  ["inputs", "fault_sequences"],
  "every result of fread, getdelim, fopen, ferror and feof, every sequence of requested lengths",
  "Short reads and I/O errors do not occur in the tests; they turn into silently truncated schemas and logs.",
  ["src/log_surgeon/FileReader.cpp", "src/log_surgeon/FileReader.hpp", "src/log_surgeon/SchemaParser.cpp"],
  [("reads", "src/log_surgeon/FileReader.cpp FileReader::read, try_read_to_delimiter"),
   ("opening and closing", "src/log_surgeon/FileReader.cpp FileReader::try_open, close, ~FileReader"),
   ("schema readers", "src/log_surgeon/SchemaParser.cpp try_schema_file, try_schema_string")],
  rule=("files", "rule24"), technique=AI,
  note="Each function is interpreted with every outcome of the stdio calls it makes; the string reader is called three times in "
       "succession with arbitrary lengths.",
  assumptions=["stdio behaves as the C standard says (short counts only at end or error)"])

P("C22", "Capture registers keep exactly the sequence of positions given to them",
  "A node added to the prefix tree gets the next id, its parent's path and its position; every node's path lists the "
  "positions from it to below the root, all others stay as they were, and nodes or registers that do not exist are refused "
  "without a change. Adding, copying, setting and appending act on exactly the register named: copy makes it name the same "
  "path as its source, set replaces its newest position, append extends its own path by one.",
  ["inputs", "histories"],
  "every tree of up to five nodes with any positions, insertions in a tree of any size, every pair of registers",
  "A register that loses or borrows a position shows only after particular orders of copies and appends.",
  ["src/log_surgeon/finite_automata/PrefixTree.hpp", "src/log_surgeon/finite_automata/PrefixTree.cpp",
   "src/log_surgeon/finite_automata/RegisterHandler.hpp"],
  [("tree", "src/log_surgeon/finite_automata/PrefixTree.hpp insert, set, src/log_surgeon/finite_automata/PrefixTree.cpp get_reversed_positions"),
   ("registers", "src/log_surgeon/finite_automata/RegisterHandler.hpp")],
  rule=("registers", "rule22"), technique=AI,
  note="The tree's functions are interpreted on every tree shape of up to five nodes with symbolic positions, and insert on a tree of "
       "unknown size; each register operation on listed registers with the tree's operations recorded.",
  assumptions=["a register copied from another shares its newest position with it until it is extended (design)"])

FX = "interprocedural may-write effect analysis (aliases, references and iterators resolved) over the call graph"

P("C21", "Parsers on different threads share no mutable state",
  "Building schemas and lexers, parsing logs and reading events never modifies an object that is shared by all instances: "
  "every variable of static storage duration the library writes is thread-local or synchronised, and no library call keeps "
  "its state in storage shared by all threads. Parsers used by different threads therefore never influence each other.",
  ["schedules", "histories"],
  "every function of the library (all are entry points), every way it can reach a variable of static storage duration",
  "A test on one thread cannot see it, and a test on several only by chance.",
  ["src/log_surgeon/LALR1Parser.hpp", "src/log_surgeon/LALR1Parser.cpp", "src/log_surgeon/LALR1Parser.tpp",
   "src/log_surgeon/SchemaParser.cpp", "src/log_surgeon/SchemaParser.hpp", "src/log_surgeon/Lexer.hpp"],
  [("pool of parse tree children", "src/log_surgeon/LALR1Parser.hpp NonTerminal"),
   ("table of special characters", "src/log_surgeon/SchemaParser.hpp SchemaParser")],
  rule=("shared", "rule"), technique=FX,
  note="Every mention of a global, static member or static local is followed through references, pointers, iterators, range "
       "variables and calls; a write through any of them is reported unless the variable is const, thread_local, atomic or a lock.",
  assumptions=["different threads do not share one parser, schema or event object (the library offers no locking for that)",
               "library calls outside the list of known offenders are thread-safe"])

P("C27", "Parsing never changes the compiled schema",
  "No function that runs while logs are parsed, events are read or a parser is reset modifies what the schema was compiled to: "
  "the automaton's states and transitions, the rules, the delimiters, the first characters and the maps between variable names "
  "and ids. The ids and the automaton a caller sees are the same for the life of the parser, whatever was parsed.",
  ["histories", "inputs"],
  "every function reachable from the public parsing, reset and event functions; every field of the automata and tables",
  "A table that a rare input changes spoils later logs, not the one a test looks at.",
  ["src/log_surgeon/Lexer.hpp", "src/log_surgeon/Lexer.tpp", "src/log_surgeon/finite_automata/RegexDFA.hpp",
   "src/log_surgeon/LogParser.cpp", "src/log_surgeon/BufferParser.cpp", "src/log_surgeon/ReaderParser.cpp"],
  [("scanner", "src/log_surgeon/Lexer.tpp scan, scan_with_wildcard, flip_states, increase_buffer_capacity, reset"),
   ("parsers", "src/log_surgeon/LogParser.cpp, src/log_surgeon/BufferParser.cpp, src/log_surgeon/ReaderParser.cpp")],
  rule=("shared", "rule27"), technique=FX,
  note="The functions reachable from the public parsing interface are analysed with the compiled schema's fields as roots; a write to "
       "one of them, directly or through an alias or a callee, is reported at the place that performs it.",
  assumptions=["callers do not modify the lexer they can reach through references handed out for building it"])

P("C33", "A wildcard token is a variable only if every text it can stand for is",
  "scan_with_wildcard, asked at the end of a text whether the text followed by a wildcard is a variable, answers with the "
  "variable types of the text's state only if the text itself is accepted and so is every continuation: for '?' every single "
  "character, for '*' every sequence of characters other than delimiters. Otherwise it answers with an uncaught string. It "
  "looks at each state behind the text once, never follows a transition that does not exist, and ends. On the way through the "
  "text its state follows the characters from the root state (or from where it was interrupted), it remembers matches like the "
  "ordinary scanner, and it hands a token out once.",
  ["inputs"],
  "every automaton, every state the text can lead to, every set of delimiters",
  "A continuation that is passed over shows only for a schema in which exactly that continuation is not a variable.",
  ["src/log_surgeon/Lexer.tpp", "src/log_surgeon/finite_automata/RegexDFAState.hpp"],
  [("wildcard scan", "src/log_surgeon/Lexer.tpp Lexer::scan_with_wildcard")],
  rule=("wild", "rule"), technique=AI + "; work-list invariants",
  note="scan_with_wildcard is interpreted at the end of its text in an arbitrary state of an arbitrary automaton; the search behind "
       "the text is shown to satisfy the conditions that make a work list visit the closure (start pushed, every non-delimiter "
       "transition of every visited state pushed or known, only visited states remembered, drained at the end).",
  assumptions=["the text can be followed by the automaton to its end (the function asserts it)"])

P("C34", "The schema parser's tables follow its grammar",
  "The table the LALR(1) parser steers by is the one its productions define: item sets are closed under expansion of the "
  "non-terminals behind the dot, a set is left over every symbol its items expect and leads to the set of exactly the advanced "
  "items, FIRST and empty symbols are found for every production, every lookahead that arises at an item or is handed on to it "
  "reaches it, and the actions are exactly those of the items: shift over the next symbol, reduce on the lookahead, accept at the "
  "end. Two meanings for one symbol are reported as a conflict and never resolved silently, and a symbol without a meaning stays "
  "an error.",
  ["inputs"],
  "every grammar that can be built from add_rule and add_production",
  "The tests use one grammar, that of the schema file. A lookahead that is lost, or one resolution of a conflict, shows only for "
  "a grammar whose productions need it.",
  ["src/log_surgeon/LALR1Parser.tpp", "src/log_surgeon/LALR1Parser.hpp"],
  [("closures", "src/log_surgeon/LALR1Parser.tpp generate_lr0_closure, generate_lr1_closure, lr_closure_helper"),
   ("transitions", "src/log_surgeon/LALR1Parser.tpp go_to, generate_lr0_kernels"),
   ("FIRST and empty symbols", "src/log_surgeon/LALR1Parser.tpp generate_first_sets"),
   ("lookaheads", "src/log_surgeon/LALR1Parser.tpp generate_lr1_item_sets"),
   ("actions", "src/log_surgeon/LALR1Parser.tpp generate_lalr1_action")],
  rule=("lalr", "rule34"), technique=AI + "; work-list and fixpoint invariants",
  note="Every step of the construction is interpreted on an arbitrary grammar. From one arbitrary round of each of its loops it is "
       "shown what the round adds and when, that the loops cover all they range over, that a work list is drained and a fixpoint "
       "loop goes on while something changed, and that the steps follow one another. Lookaheads are kept per item of each "
       "item set: what arises or is handed on goes to the advanced item in the set reached over the next symbol. The order that "
       "sets of items use is evaluated for every relation of two items and shown to be a total one.",
  assumptions=["the productions are not changed while the tables are built",
               "a parser driven by the textbook LALR(1) tables accepts the language of the grammar (C12 and C20 decide the driver)"])

P("C35", "A copied or moved object never points into the original, nor releases twice",
  "Every object that can be copied or moved stays self-contained: no copy or moved-to object holds an address inside the original "
  "(or of something only the original owns), no object owned by it refers back to the original, and no handle is released by two "
  "destructors. Classes whose objects hold such addresses or handles either cannot be copied or moved, or have operations that "
  "re-establish the address and take the handle over. In particular moving an event keeps its tokens readable, and a parser, whose "
  "event view refers back to it, cannot be copied or moved.",
  ["inputs", "histories"],
  "every class of the library, every copy or move the language allows, in every state of the object",
  "A copy works as long as the original lives and is not reused; the tests never copy or move a parser, a buffer or a reader.",
  ["src/log_surgeon/Buffer.hpp", "src/log_surgeon/FileReader.hpp", "src/log_surgeon/LogEvent.cpp", "src/log_surgeon/LogParser.cpp"],
  [("self address", "src/log_surgeon/Buffer.hpp Buffer::m_active_storage"), ("back reference", "src/log_surgeon/LogParser.cpp LogParser::LogParser"),
   ("handle", "src/log_surgeon/FileReader.hpp FileReader::~FileReader"), ("owned address", "src/log_surgeon/LogEvent.cpp LogEvent::LogEvent")],
  rule=("owner", "rule"), technique="points-into analysis over all functions; static_assert witness of copy and move operations (compile-fail)",
  note="A flow-insensitive points-into analysis with function summaries finds every class one of whose functions stores, in a field or in "
       "something the object owns, an address inside the object or of storage it owns, and every class whose destructor releases a raw "
       "handle. A witness of static assertions, and per operation a compile-fail witness, tells which of these can be copied or moved; "
       "a memberwise operation is a violation, a written one is interpreted.",
  assumptions=["a moved standard container other than string, array and optional keeps the addresses of its elements"])

P("C36", "Every token of every input is the longest match of the whole schema",
  "For every schema and every input the sequence of tokens is the one longest-match rule of the schema's regular expressions "
  "defines on the text: an independent matcher over the schema's expressions would cut the text at the same places and give "
  "each token the same types.",
  ["inputs"],
  "every schema file, every input text, end to end",
  "The tests compare a few schemas and texts.",
  ["src/log_surgeon/Lexer.tpp", "src/log_surgeon/SchemaParser.cpp", "src/log_surgeon/finite_automata/RegexAST.hpp"],
  [("scanner", "src/log_surgeon/Lexer.tpp Lexer::scan"), ("automata", "src/log_surgeon/finite_automata/RegexAST.hpp add_to_nfa")],
  na="the end-to-end statement quantifies over the product of all schemas and all texts; its static parts are claimed one by one (the "
     "schema's text C12 and C34, the operators' automata C15, their simulation C16 and C17, the scanner's tokens C05), and the "
     "language-equality argument that composes them for all texts is a proof, not a source analysis")

P("C37", "Parsing time is linear in the input and no input makes it loop",
  "Parsing an input takes time proportional to its length for a fixed schema, and every call returns after finitely many steps "
  "for every input, schema and reader that eventually ends.",
  ["inputs"],
  "every input, every schema, every reader that ends",
  "A test that ends shows nothing about another input.",
  ["src/log_surgeon/Lexer.tpp", "src/log_surgeon/LogParser.cpp", "src/log_surgeon/LALR1Parser.tpp"],
  [("scan loop", "src/log_surgeon/Lexer.tpp Lexer::scan"), ("reduce loop", "src/log_surgeon/LALR1Parser.tpp parse_symbol")],
  na="the loops end by a measure over run-time quantities (bytes left in the reader, pending lookaheads, the depth of the parse stack, "
     "unread states of an automaton) for which the sources give no bound that an analysis without a solver or a proof can rank; "
     "where a work list is part of a claimed construction its draining is decided there (C16, C31, C34)")

P("C38", "Interval trees of Unicode ranges hold exactly the ranges that were added",
  "Inserting, looking up and removing ranges in an interval tree keeps exactly the added mappings, finds every overlapping one, and "
  "keeps the tree balanced.",
  ["inputs", "histories"],
  "every sequence of insertions, lookups and removals",
  "The tests use a few sequences.",
  ["src/log_surgeon/finite_automata/UnicodeIntervalTree.hpp", "src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp"],
  [("balance", "src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp Node::balance_factor")],
  na="an AVL tree's invariant relates heights and bounds of unboundedly many nodes of a recursive shape; the analysis here has no shape "
     "domain for recursive ownership, and an argument by induction over the tree is a proof rather than a source analysis")
