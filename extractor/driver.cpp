// Instantiates every class template of the library's public surface so that the extractor sees the
// resolved bodies even when no library translation unit happens to use a member.
#include <cstdint>

#include <log_surgeon/BufferParser.hpp>
#include <log_surgeon/FileReader.hpp>
#include <log_surgeon/LALR1Parser.hpp>
#include <log_surgeon/Lexer.hpp>
#include <log_surgeon/LexicalRule.hpp>
#include <log_surgeon/LogEvent.hpp>
#include <log_surgeon/LogParser.hpp>
#include <log_surgeon/ReaderParser.hpp>
#include <log_surgeon/Schema.hpp>
#include <log_surgeon/SchemaParser.hpp>
#include <log_surgeon/finite_automata/PrefixTree.hpp>
#include <log_surgeon/finite_automata/RegexAST.hpp>
#include <log_surgeon/finite_automata/RegexDFA.hpp>
#include <log_surgeon/finite_automata/RegexNFA.hpp>
#include <log_surgeon/finite_automata/RegexNFAState.hpp>
#include <log_surgeon/finite_automata/RegisterHandler.hpp>
#include <log_surgeon/finite_automata/TaggedTransition.hpp>
#include <log_surgeon/finite_automata/UnicodeIntervalTree.hpp>

namespace log_surgeon {
using NB = finite_automata::RegexNFAByteState;
using DB = finite_automata::RegexDFAByteState;
template class Lexer<NB, DB>;
template class Parser<NB, DB>;
template class LALR1Parser<NB, DB>;
template class LexicalRule<NB>;
template class Buffer<char>;
template class Buffer<Token>;
}  // namespace log_surgeon

namespace log_surgeon::finite_automata {
template class RegexAST<RegexNFAByteState>;
template class RegexASTEmpty<RegexNFAByteState>;
template class RegexASTLiteral<RegexNFAByteState>;
template class RegexASTInteger<RegexNFAByteState>;
template class RegexASTGroup<RegexNFAByteState>;
template class RegexASTOr<RegexNFAByteState>;
template class RegexASTCat<RegexNFAByteState>;
template class RegexASTMultiplication<RegexNFAByteState>;
template class RegexASTCapture<RegexNFAByteState>;
template class RegexNFA<RegexNFAByteState>;
template class RegexDFA<RegexDFAByteState>;
template class RegexDFAStatePair<RegexDFAByteState>;
template class PositiveTaggedTransition<RegexNFAByteState>;
template class NegativeTaggedTransition<RegexNFAByteState>;
template class UnicodeIntervalTree<int>;
}  // namespace log_surgeon::finite_automata
