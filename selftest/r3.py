P = "src/annotations/parser.cpp"
L = "src/annotations/literal_value.cpp"
N = "src/annotations/annotation.cpp"
S = "src/string_utils.cpp"
O = "src/sort_decls.cpp"
PH = "include/genpybind/annotations/parser.h"
LH = "include/genpybind/annotations/literal_value.h"
EDITS = {
"tok-default-digits": [(P, """  case '0':
  case '1':
  case '2':
  case '3':
  case '4':
  case '5':
  case '6':
  case '7':
  case '8':
  case '9':
    tokenizeNumberLiteral(result);
    break;
  case '"':
    tokenizeStringLiteral(result);
    break;
  default:
    if (isIdentifierStart(text.front())) {
""", """  case '"':
    tokenizeStringLiteral(result);
    break;
  default:
    if (clang::isDigit(static_cast<unsigned char>(text.front()))) {
      tokenizeNumberLiteral(result);
    } else if (isIdentifierStart(text.front())) {
""")],
"tok-ifchain": [(P, """  switch (text.front()) {
  case '(':
    tokenize_char(Token::Kind::OpeningParen);
    break;
  case ')':
    tokenize_char(Token::Kind::ClosingParen);
    break;
  case ',':
    tokenize_char(Token::Kind::Comma);
    break;
  case '0':
  case '1':
  case '2':
  case '3':
  case '4':
  case '5':
  case '6':
  case '7':
  case '8':
  case '9':
    tokenizeNumberLiteral(result);
    break;
  case '"':
    tokenizeStringLiteral(result);
    break;
  default:
    if (isIdentifierStart(text.front())) {
      tokenizeIdentifier(result);
    } else {
      tokenize_char(Token::Kind::Invalid);
    }
    break;
  }

  return result;
""", """  const char next = text.front();
  if (next == '(') {
    tokenize_char(Token::Kind::OpeningParen);
  } else if (next == ')') {
    tokenize_char(Token::Kind::ClosingParen);
  } else if (next == ',') {
    tokenize_char(Token::Kind::Comma);
  } else if (next >= '0' && next <= '9') {
    tokenizeNumberLiteral(result);
  } else if (next == '"') {
    tokenizeStringLiteral(result);
  } else if (isIdentifierStart(next)) {
    tokenizeIdentifier(result);
  } else {
    tokenize_char(Token::Kind::Invalid);
  }
  return result;
""")],
"tok-return-each": [(P, """  case '(':
    tokenize_char(Token::Kind::OpeningParen);
    break;
  case ')':
    tokenize_char(Token::Kind::ClosingParen);
    break;
""", """  case '(':
    tokenize_char(Token::Kind::OpeningParen);
    return result;
  case ')':
    tokenize_char(Token::Kind::ClosingParen);
    return result;
""")],
"tok-consume-front": [(P, """    result.kind = kind;
    result.text = text.take_front(1);
    text = text.drop_front(1);
  };
""", """    result.text = text.substr(0, 1);
    result.kind = kind;
    text = text.substr(1);
  };
""")],
"tok-eof-after": [(P, """  if (text.empty()) {
    result.kind = Token::Kind::Eof;
    result.text = "";
    return result;
  }
""", """  if (text.empty()) {
    result.text = "";
    result.kind = Token::Kind::Eof;
    return result;
  }
""")],
"tok-helper-method": [(P, """  const auto tokenize_char = [&result, &text = text](Token::Kind kind) {
    result.kind = kind;
    result.text = text.take_front(1);
    text = text.drop_front(1);
  };
""", """  const auto tokenize_char = [&](Token::Kind kind) {
    result.kind = kind;
    result.text = consume(1);
  };
"""), (P, """auto Parser::Tokenizer::tokenize() -> Token {
""", """llvm::StringRef Parser::Tokenizer::consume(std::size_t length) {
  llvm::StringRef front = text.take_front(length);
  text = text.drop_front(length);
  return front;
}

auto Parser::Tokenizer::tokenize() -> Token {
"""), (PH, """  Token tokenize();
""", """  llvm::StringRef consume(std::size_t length);
  Token tokenize();
""")],
"num-invert": [(P, """  result.kind = Token::Kind::Literal;
  // Only unsigned integers (without sign char) are supported.
  result.text = text.take_while(clang::isDigit);
  text = text.drop_front(result.text.size());

  unsigned value = 0;
  if (!result.text.getAsInteger(10, value)) {
    result.value.setUnsigned(value);
    return;
  }
  result.kind = Token::Kind::Invalid;
""", """  // Only unsigned integers (without sign char) are supported.
  result.text = text.take_while(clang::isDigit);
  text = text.drop_front(result.text.size());

  unsigned value = 0;
  if (result.text.getAsInteger(10, value)) {
    result.kind = Token::Kind::Invalid;
    return;
  }
  result.kind = Token::Kind::Literal;
  result.value.setUnsigned(value);
""")],
"num-ternary": [(P, """  unsigned value = 0;
  if (!result.text.getAsInteger(10, value)) {
    result.value.setUnsigned(value);
    return;
  }
  result.kind = Token::Kind::Invalid;
""", """  unsigned value = 0;
  const bool failed = result.text.getAsInteger(10, value);
  if (failed)
    result.kind = Token::Kind::Invalid;
  else
    result.value.setUnsigned(value);
""")],
"str-for-index": [(P, """  for (auto pos : llvm::seq<llvm::StringRef::size_type>(1, text.size())) {
""", """  for (llvm::StringRef::size_type pos = 1; pos < text.size(); ++pos) {
""")],
"str-for-const": [(P, """  for (auto pos : llvm::seq<llvm::StringRef::size_type>(1, text.size())) {
    if (escape_next_char || text[pos] == '\\\\') {
      escape_next_char = !escape_next_char;
      continue;
    }
    if (text[pos] == '"') {
""", """  for (auto pos : llvm::seq<llvm::StringRef::size_type>(1, text.size())) {
    const char current = text[pos];
    if (escape_next_char || current == '\\\\') {
      escape_next_char = !escape_next_char;
      continue;
    }
    if (current == '"') {
""")],
"str-split-cond": [(P, """    if (escape_next_char || text[pos] == '\\\\') {
      escape_next_char = !escape_next_char;
      continue;
    }
    if (text[pos] == '"') {
""", """    if (escape_next_char) {
      escape_next_char = false;
      continue;
    }
    if (text[pos] == '\\\\') {
      escape_next_char = true;
      continue;
    }
    if (text[pos] == '"') {
""")],
"str-else": [(P, """      result.kind = Token::Kind::Literal;
      result.text = text.take_front(pos + 1);
      result.value.setString(text.substr(1, pos - 1));
      text = text.drop_front(pos + 1);
      return;
    }
  }
  result.text = text;
  result.kind = Token::Kind::Invalid;
  text = text.drop_front(text.size());
""", """      result.value.setString(text.substr(1, pos - 1));
      result.text = text.take_front(pos + 1);
      result.kind = Token::Kind::Literal;
      text = text.drop_front(pos + 1);
      return;
    }
  }
  result.kind = Token::Kind::Invalid;
  result.text = text;
  text = text.drop_front(text.size());
""")],
"str-slice": [(P, """result.value.setString(text.substr(1, pos - 1));""", """result.value.setString(text.slice(1, pos));""")],
"str-dropfront-empty": [(P, """  text = text.drop_front(text.size());
""", """  text = llvm::StringRef();
""")],
"ident-direct": [(P, """  result.text = text.take_while([](char c) { return isIdentifierContinue(c); });
""", """  result.text = text.take_while(isIdentifierContinue);
""")],
"ident-local": [(P, """  result.kind = Token::Kind::Identifier;
  result.text = text.take_while([](char c) { return isIdentifierContinue(c); });
  assert(!result.text.empty());
  text = text.drop_front(result.text.size());
""", """  const llvm::StringRef identifier =
      text.take_while([](char c) { return isIdentifierContinue(c); });
  text = text.drop_front(identifier.size());
  result.kind = Token::Kind::Identifier;
  result.text = identifier;
""")],
"annos-for": [(P, """  while (tokenizer->tokenKind() == Token::Kind::Identifier) {
    auto kind = parseAnnotationKind();
    if (!kind)
      return kind.takeError();

    auto arguments = parseAnnotationArguments();
    if (!arguments)
      return arguments.takeError();

    annotations.emplace_back(*kind, std::move(*arguments));
    if (!skipComma())
      break;
  }
""", """  bool more = true;
  while (more && tokenizer->tokenKind() == Token::Kind::Identifier) {
    auto kind = parseAnnotationKind();
    if (!kind)
      return kind.takeError();

    auto arguments = parseAnnotationArguments();
    if (!arguments)
      return arguments.takeError();

    annotations.emplace_back(*kind, std::move(*arguments));
    more = skipComma();
  }
""")],
"annos-helper": [(P, """    auto kind = parseAnnotationKind();
    if (!kind)
      return kind.takeError();

    auto arguments = parseAnnotationArguments();
    if (!arguments)
      return arguments.takeError();

    annotations.emplace_back(*kind, std::move(*arguments));
    if (!skipComma())
      break;
""", """    if (llvm::Error error = parseAnnotation(annotations))
      return error;
    if (!skipComma())
      break;
"""), (P, """auto Parser::parseAnnotations(Annotations &annotations) -> llvm::Error {
""", """auto Parser::parseAnnotation(Annotations &annotations) -> llvm::Error {
  auto kind = parseAnnotationKind();
  if (!kind)
    return kind.takeError();

  auto arguments = parseAnnotationArguments();
  if (!arguments)
    return arguments.takeError();

  annotations.emplace_back(*kind, std::move(*arguments));
  return llvm::Error::success();
}

auto Parser::parseAnnotations(Annotations &annotations) -> llvm::Error {
"""), (PH, """  llvm::Error parseAnnotations(Annotations &annotations);
""", """  llvm::Error parseAnnotations(Annotations &annotations);
  llvm::Error parseAnnotation(Annotations &annotations);
""")],
"annos-eof-first": [(P, """  if (tokenizer->tokenKind() != Token::Kind::Eof)
    return llvm::make_error<Error>(Error::Kind::InvalidToken,
                                   tokenizer->consumeToken().text);

  return llvm::Error::success();
""", """  if (tokenizer->tokenKind() == Token::Kind::Eof)
    return llvm::Error::success();

  Token token = tokenizer->consumeToken();
  return llvm::make_error<Error>(Error::Kind::InvalidToken, token.text);
""")],
"kind-invert": [(P, """  if (kind.has_value())
    return *kind;
  return llvm::make_error<Error>(Error::Kind::InvalidAnnotation, token.text);
""", """  if (!kind)
    return llvm::make_error<Error>(Error::Kind::InvalidAnnotation, token.text);
  return kind.value();
""")],
"args-noparen": [(P, """  Annotation::Arguments arguments;

  if (tokenizer->tokenKind() != Token::Kind::OpeningParen) {
    // It's valid to omit the parens if no arguments are passed.
    return arguments;
  }
""", """  // It's valid to omit the parens if no arguments are passed.
  if (tokenizer->tokenKind() != Token::Kind::OpeningParen)
    return Annotation::Arguments{};

  Annotation::Arguments arguments;
""")],
"args-loop": [(P, """  while (LiteralValue value = parseAnnotationValue()) {
    arguments.push_back(std::move(value));
    if (!skipComma()) {
      break;
    }
  }
""", """  for (;;) {
    LiteralValue value = parseAnnotationValue();
    if (!value)
      break;
    arguments.push_back(std::move(value));
    if (!skipComma())
      break;
  }
""")],
"args-dowhile": [(P, """  while (LiteralValue value = parseAnnotationValue()) {
    arguments.push_back(std::move(value));
    if (!skipComma()) {
      break;
    }
  }
""", """  do {
    LiteralValue value = parseAnnotationValue();
    if (!value)
      break;
    arguments.push_back(std::move(value));
  } while (skipComma());
""")],
"args-error": [(P, """  if (token.kind != Token::Kind::ClosingParen) {
    return llvm::make_error<Error>(token.kind == Token::Kind::Invalid
                                       ? Error::Kind::InvalidToken
                                       : Error::Kind::MissingClosingParen,
                                   token.text);
  }
  return arguments;
""", """  if (token.kind == Token::Kind::ClosingParen)
    return arguments;
  if (token.kind == Token::Kind::Invalid)
    return llvm::make_error<Error>(Error::Kind::InvalidToken, token.text);
  return llvm::make_error<Error>(Error::Kind::MissingClosingParen, token.text);
""")],
"value-switch": [(P, """  if (tokenizer->tokenKind() == Token::Kind::Literal) {
    Token token = tokenizer->consumeToken();
    return std::move(token.value);
  }
  if (tokenizer->tokenKind() == Token::Kind::Identifier) {
    // Identifiers are implicitly converted to special values or strings when
    // used as arguments.
    Token token = tokenizer->consumeToken();
    return llvm::StringSwitch<LiteralValue>(token.text)
        .Case("true", LiteralValue::createBoolean(true))
        .Case("false", LiteralValue::createBoolean(false))
        .Case("default", LiteralValue::createDefault())
        .Default(LiteralValue::createString(token.text));
  }
  return {};
""", """  switch (tokenizer->tokenKind()) {
  case Token::Kind::Literal: {
    Token token = tokenizer->consumeToken();
    return std::move(token.value);
  }
  case Token::Kind::Identifier: {
    // Identifiers are implicitly converted to special values or strings when
    // used as arguments.
    Token token = tokenizer->consumeToken();
    if (token.text == "true")
      return LiteralValue::createBoolean(true);
    if (token.text == "false")
      return LiteralValue::createBoolean(false);
    if (token.text == "default")
      return LiteralValue::createDefault();
    return LiteralValue::createString(token.text);
  }
  default:
    return {};
  }
""")],
"value-helper": [(P, """    return llvm::StringSwitch<LiteralValue>(token.text)
        .Case("true", LiteralValue::createBoolean(true))
        .Case("false", LiteralValue::createBoolean(false))
        .Case("default", LiteralValue::createDefault())
        .Default(LiteralValue::createString(token.text));
""", """    return literalFromIdentifier(token.text);
"""), (P, """auto Parser::parseAnnotationValue() -> LiteralValue {
""", """static LiteralValue literalFromIdentifier(llvm::StringRef text) {
  return llvm::StringSwitch<LiteralValue>(text)
      .Case("default", LiteralValue::createDefault())
      .Case("false", LiteralValue::createBoolean(false))
      .Case("true", LiteralValue::createBoolean(true))
      .Default(LiteralValue::createString(text));
}

auto Parser::parseAnnotationValue() -> LiteralValue {
""")],
"comma": [(P, """  if (tokenizer->tokenKind() != Token::Kind::Comma)
    return false;
  tokenizer->consumeToken();
  return true;
""", """  const bool found = tokenizer->tokenKind() == Token::Kind::Comma;
  if (found)
    tokenizer->consumeToken();
  return found;
""")],
"report-builder": [(P, """  return diagnostics.Report(loc, getCustomDiagID(diagnostics, kind)) << token;
""", """  const unsigned diag_id = getCustomDiagID(diagnostics, kind);
  return diagnostics.Report(loc, diag_id) << token;
""")],
"expected-direct": [(P, """  Annotations annotations;
  if (llvm::Error error = parseAnnotations(text, annotations))
    return {std::move(error)};
  return annotations;
""", """  Annotations annotations;
  llvm::Error error = parseAnnotations(text, annotations);
  if (error)
    return std::move(error);
  return annotations;
""")],
"parser-local": [(P, """  return Parser(&tokenizer).parseAnnotations(annotations);
""", """  Parser parser(&tokenizer);
  return parser.parseAnnotations(annotations);
""")],
# literal value
"lit-create-string": [(L, """  LiteralValue result;
  result.setString(value);
  return result;
""", """  LiteralValue literal;
  literal.setString(value);
  return literal;
""")],
"lit-copyctor": [(L, """LiteralValue::LiteralValue(const LiteralValue &other) : kind(Kind::Nothing) {
  *this = other;
}
""", """LiteralValue::LiteralValue(const LiteralValue &other) : LiteralValue() {
  operator=(other);
}
""")],
"lit-assign-if": [(L, """  if (this == &other)
    return *this;

  setNothing();
  switch (other.kind) {
  case Kind::Nothing:
    break;
  case Kind::String:
""", """  if (&other == this)
    return *this;

  switch (other.kind) {
  case Kind::Nothing:
    setNothing();
    break;
  case Kind::String:
""")],
"lit-assign-nested": [(L, """  if (this == &other)
    return *this;

  setNothing();
  switch (other.kind) {
  case Kind::Nothing:
    break;
  case Kind::String:
    setString(other.getString());
    break;
  case Kind::Unsigned:
    setUnsigned(other.getUnsigned());
    break;
  case Kind::Boolean:
    setBoolean(other.getBoolean());
    break;
  case Kind::Default:
    setDefault();
    break;
  }
  return *this;
""", """  if (this != &other) {
    if (other.isString()) {
      setString(other.getString());
    } else if (other.isUnsigned()) {
      setUnsigned(other.getUnsigned());
    } else if (other.isBoolean()) {
      setBoolean(other.getBoolean());
    } else if (other.isDefault()) {
      setDefault();
    } else {
      setNothing();
    }
  }
  return *this;
""")],
"lit-movector": [(L, """  if (other.isString()) {
    kind = Kind::String;
    std::swap(string, other.string);
    other.kind = Kind::Nothing;
  } else {
    *this = other;
  }
}
""", """  if (!other.isString()) {
    *this = other;
    return;
  }
  kind = Kind::String;
  std::swap(string, other.string);
  other.kind = Kind::Nothing;
}
""")],
"lit-movector-exchange": [(L, """    kind = Kind::String;
    std::swap(string, other.string);
    other.kind = Kind::Nothing;
""", """    kind = Kind::String;
    string = std::exchange(other.string, string);
    other.kind = Kind::Nothing;
""")],
"lit-moveassign": [(L, """  if (other.isString()) {
    if (!isString()) {
      kind = Kind::String;
      string = nullptr;
    }
    std::swap(string, other.string);
  } else {
    *this = other;
  }
  return *this;
""", """  if (!other.isString())
    return *this = other;

  if (!isString()) {
    string = nullptr;
    kind = Kind::String;
  }
  std::swap(string, other.string);
  return *this;
""")],
"lit-dtor": [(L, """LiteralValue::~LiteralValue() {
  if (isString())
    delete string;
}
""", """LiteralValue::~LiteralValue() {
  if (kind == Kind::String)
    delete string;
}
""")],
"lit-dtor-setnothing": [(L, """LiteralValue::~LiteralValue() {
  if (isString())
    delete string;
}
""", """LiteralValue::~LiteralValue() { setNothing(); }
""")],
"lit-release-helper": [(L, """LiteralValue::~LiteralValue() {
  if (isString())
    delete string;
}
""", """LiteralValue::~LiteralValue() { releaseString(); }

void LiteralValue::releaseString() {
  if (isString())
    delete string;
}
"""), (L, """void LiteralValue::setNothing() {
  if (isString())
    delete string;
""", """void LiteralValue::setNothing() {
  releaseString();
"""), (LH, """  LiteralValue() : kind(Kind::Nothing) {}
""", """  void releaseString();
  LiteralValue() : kind(Kind::Nothing) {}
""")],
"lit-nothing-order": [(L, """    delete string;
  kind = Kind::Nothing;
  string = nullptr;
""", """    delete string;
  string = nullptr;
  kind = Kind::Nothing;
""")],
"lit-setstring-order": [(L, """  setNothing();
  kind = Kind::String;
  string = new std::string(value);
""", """  setNothing();
  string = new std::string(value.begin(), value.end());
  kind = Kind::String;
""")],
"lit-setstring-str": [(L, """  string = new std::string(value);
""", """  string = new std::string(value.str());
""")],
"lit-print-if": [(L, """  switch (kind) {
  case Kind::String:
    os << '"';
    os.write_escaped(getString());
    os << '"';
    break;
  case Kind::Unsigned:
    os << getUnsigned();
    break;
  case Kind::Boolean:
    os << (getBoolean() ? "true" : "false");
    break;
""", """  switch (kind) {
  case Kind::String:
    os << "\\"";
    os.write_escaped(*string) << "\\"";
    break;
  case Kind::Unsigned:
    os << integer;
    break;
  case Kind::Boolean:
    if (boolean)
      os << "true";
    else
      os << "false";
    break;
""")],
"lit-eq-combined": [(L, """  if (kind != other.kind)
    return false;
  switch (kind) {
  case Kind::String:
    return getString() == other.getString();
  case Kind::Unsigned:
    return getUnsigned() == other.getUnsigned();
  case Kind::Boolean:
    return getBoolean() == other.getBoolean();
  case Kind::Nothing:
  case Kind::Default:
    return true;
  }
  llvm_unreachable("Unknown literal value kind.");
""", """  if (kind != other.kind)
    return false;
  if (isString())
    return getString() == other.getString();
  if (isUnsigned())
    return getUnsigned() == other.getUnsigned();
  if (isBoolean())
    return getBoolean() == other.getBoolean();
  return true;
""")],
"lit-tostring": [(L, """  std::string result;
  llvm::raw_string_ostream stream(result);
  value.print(stream);
  return stream.str();
""", """  std::string result;
  llvm::raw_string_ostream stream(result);
  value.print(stream);
  stream.flush();
  return result;
""")],
"lit-tostring-buffer": [(L, """  std::string result;
  llvm::raw_string_ostream stream(result);
  value.print(stream);
  return stream.str();
""", """  std::string buffer;
  {
    llvm::raw_string_ostream stream(buffer);
    value.print(stream);
  }
  return buffer;
""")],
# annotation
"anno-print-interleave": [(N, """  bool comma = false;
  for (const auto &arg : arguments) {
    if (comma)
      os << ", ";
    arg.print(os);
    comma = true;
  }
  os << ')';
""", """  llvm::interleaveComma(arguments, os, [&os](const LiteralValue &arg) { arg.print(os); });
  os << ')';
"""), (N, "#include <llvm/Support/raw_os_ostream.h>", "#include <llvm/ADT/STLExtras.h>\n#include <llvm/Support/raw_os_ostream.h>")],
"anno-print-first": [(N, """  bool comma = false;
  for (const auto &arg : arguments) {
    if (comma)
      os << ", ";
    arg.print(os);
    comma = true;
  }
""", """  bool first = true;
  for (const auto &arg : arguments) {
    if (!first)
      os << ", ";
    first = false;
    arg.print(os);
  }
""")],
"anno-print-sep": [(N, """  bool comma = false;
  for (const auto &arg : arguments) {
    if (comma)
      os << ", ";
    arg.print(os);
    comma = true;
  }
""", """  llvm::StringRef separator;
  for (const auto &arg : arguments) {
    os << separator;
    arg.print(os);
    separator = ", ";
  }
""")],
"anno-kindprint": [(N, """  os << toString(*this);
""", """  const llvm::StringRef spelling = toString(*this);
  os << spelling;
""")],
# string utils
"su-lambda-inline": [(S, """  const auto is_valid_head = [](unsigned char c) {
    return clang::isAsciiIdentifierStart(c);
  };
  const auto is_valid_body = [](unsigned char c) {
    return clang::isAsciiIdentifierContinue(c);
  };
""", """  const auto is_valid_body = [](char c) {
    return clang::isAsciiIdentifierContinue(static_cast<unsigned char>(c));
  };
"""), (S, """std::find_if(last_valid, end, is_valid_head)""", """std::find_if(last_valid, end, [](char c) {
    return clang::isAsciiIdentifierStart(static_cast<unsigned char>(c));
  })""")],
"su-while": [(S, """  for (; input != end; input = std::find_if(input, end, is_valid_body)) {
    // Insert underscore if any characters have been skipped.
    if (input != last_valid)
      *output++ = '_';
    *output++ = *input++;
    last_valid = input;
  }
""", """  while (input != end) {
    // Insert underscore if any characters have been skipped.
    if (input != last_valid)
      *output++ = '_';
    *output++ = *input++;
    last_valid = input;
    input = std::find_if(input, end, is_valid_body);
  }
""")],
"su-split-incr": [(S, """    if (input != last_valid)
      *output++ = '_';
    *output++ = *input++;
    last_valid = input;
""", """    if (input != last_valid) {
      *output = '_';
      ++output;
    }
    *output = *input;
    ++output;
    ++input;
    last_valid = input;
""")],
"so-ternary": [(O, """  if (operator()(lhs->getLocation(), rhs->getLocation()))
    return true;
  if (operator()(rhs->getLocation(), lhs->getLocation()))
    return false;
""", """  const clang::SourceLocation lhs_loc = lhs->getLocation();
  const clang::SourceLocation rhs_loc = rhs->getLocation();
  if ((*this)(lhs_loc, rhs_loc))
    return true;
  if ((*this)(rhs_loc, lhs_loc))
    return false;
""")],
}
