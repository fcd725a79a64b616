P('P01', 'Any header line is refused or read as a header with a stable encoding',
  "For every line of text the header parsers return either an error and no header, or a header and no error, and never panic, loop or read past the line. An accepted header is encoded as exactly one line ending in CRLF whose text after the name is its GetValue and GetHeaderValue, and this line is accepted again and encodes as the same line, except that a From or To parameter written without '=' may gain one.",
  'inputs', 'all header parsers: any 0..2 to 0..4 (3 to 6) bytes after 1 to 8 beginnings of each header; any line of 0..5 (6) bytes',
  'Each test parses a few well-formed lines; crashes on odd bytes, lost text and encodings that do not parse were found here in most parsers.',
  'sip/parser/*Parser.go sip/header/*Impl.go core/CoreLexer.go', [('parsers', 'CreateParser and the Parse of every header parser'), ('encoding', 'String of every header')], 'header or error, its encoding and the second parse')
P('P02', 'Header names in any case and compact form give the header of their kind',
  "Each of the 51 known header names and the 13 compact names (v f t i m l c e k s u o r), written in any mixture of upper and lower case and with blanks around the colon, gives a header object of its own kind with its full canonical name, and is encoded under that name. A header of any other token name is kept as an extension header with its name and value unchanged.",
  'inputs', 'all 64 names in all cases; other names of 1..3 (5) token characters and known names followed by 0..2 (3) more',
  'Tests use each name in one spelling; Supported was read as Accept and three compact names were unknown.',
  'sip/parser/ParserFactory.go sip/parser/SIPLexer.go core/ParameterNames.go', [('dispatch', 'CreateParser'), ('names', 'SIPLexer.SelectLexer, CoreLexer.Match')], 'type, name and encoding of the header')
P('P03', 'Via, routes, contacts and address headers give exactly the fields written',
  "For well-formed Via, Route, Record-Route, Contact, From, To, Reply-To and Refer-To lines the getters give exactly the protocol, transport, host, port, comment, branch, ttl, maddr, received, display name, URI, tag, q, expires and parameters written, in order and with nothing else, whatever optional blanks stand around separators; a list holds all its elements in order. What is absent is empty, -1 for port, ttl and q, and 0 for a Contact's expiry.",
  'inputs', '1..3 elements, values of 1..2 (3) characters over the RFC 3261 sets, 4 host forms, ports of up to 2 (4) digits, 0..1 (2) parameters without value, with token or quoted value',
  'Tests compare encodings of a few lines, so a getter that gives a wrong field passes.',
  'sip/parser/ViaParser.go sip/parser/ContactParser.go sip/parser/RouteParser.go sip/parser/AddressParametersParser.go sip/header/ViaImpl.go sip/header/FromImpl.go', [('Via', 'ViaParser.ParseVia, NameValue'), ('addresses', 'AddressParametersParser.Parse, moveURIParameters'), ('getters', 'Via, Contact, From, To getters')], 'getters of the parsed header')
P('P04', 'Any bytes are a message, an error, or nothing but line ends',
  "For every byte sequence the message parser returns a message and no error, or an error and no message; it returns neither only for text of nothing but CR and LF, and it never panics or loops. With a parse exception listener each line that cannot be parsed is handed to it once with the error: if it returns an error, that error is returned and no message; if it returns none, the line is left out and the rest of the message is there.",
  'inputs', 'any 0..6 (8) bytes; any 1..3 (4) bytes at each of 35 places in a request and a response; both cut off anywhere; bad header lines at 3 places and bad first lines with a listener',
  'Torture tests hold some fifty messages; the parser crashed on cut off text and on headers it was told to ignore.',
  'sip/parser/StringMsgParser.go core/StringTokenizer.go sip/parser/SIPParser.go', [('framing', 'ParseSIPMessageFromByte'), ('headers', 'ParseMessage'), ('listener', 'ParseExceptionListener')], 'message or error returned, calls of the listener')
P('P05', 'A parsed message is encoded with all its headers and body, and reads back',
  "The encoding of a parsed message is its first line, each of its headers in the order they came (those of the same list type, such as Via, Contact, Route and Supported, joined in order where the first of them stood, and of several From, To, Call-ID, CSeq or Subject lines the first), the Content-Length, an empty line and the body; text and bytes are the same. The encoding of an accepted message is accepted again and encodes as itself.",
  'inputs', 'requests and responses with 0..2 (3) header lines of 9 kinds in any order with any letter or digit, CRLF or LF, body of 0..1 bytes; any 1..2 (3) bytes at each of 35 places in a request and a response',
  'Tests compare the encodings of a few fixed messages; a second extension or WWW-Authenticate line was lost.',
  'sip/parser/StringMsgParser.go sip/message/SIPMessage.go sip/message/SIPRequest.go sip/message/SIPResponse.go', [('parse', 'ParseMessage'), ('attach', 'SIPMessage.AttachHeader3'), ('encode', 'SIPRequest.String, SIPResponse.String, EncodeAsBytes')], 'encoding of the message')
P('P06', 'The body is exactly the Content-Length bytes after the empty line',
  "The body of a parsed message is exactly as many bytes after the first empty line as its Content-Length (the last one, if there are several) says, byte for byte, whatever follows; a message with fewer bytes is refused, and without Content-Length the body is empty. A parser reads each message the same, whatever it has read before, and overwriting the given bytes afterwards does not change a message.",
  'inputs', 'bodies of 0..3 (5) bytes of any value, any Content-Length of 1..2 digits or around 2**16, 2**31, 2**32 and 2**63, CRLF or LF; parsers reused after 5 messages',
  'Tests never check the body of a parsed message against its length.',
  'sip/parser/StringMsgParser.go sip/message/SIPMessage.go', [('body', 'ParseSIPMessageFromByte, GetBodyAsBytes'), ('content', 'SIPMessage.SetMessageContentFromByte, GetContent')], 'body of the message')
P('P07', 'First lines give method, URI, version, status and reason, and CSeq must match',
  "A request line of a method token, a URI and SIP/2.0, separated by blanks or tabs, gives exactly these; a status line of SIP/2.0, a code of three digits and a reason phrase gives exactly these; other versions and first lines without method or URI are refused. A request whose CSeq has another method than its first line is refused, while one with the same method and a response with any are accepted.",
  'inputs', 'methods of 10 names and 1..2 (3) token characters without small letters, 4 URIs, any code of 3 digits, reasons of 0..3 (5) ASCII characters; any 0..3 (4) bytes at 11 places of a request and a status line',
  'Tests parse a few first lines and no mismatching CSeq.',
  'sip/parser/RequestLineParser.go sip/parser/StatusLineParser.go sip/parser/SIPParser.go sip/parser/StringMsgParser.go', [('request line', 'RequestLineParser.Parse'), ('status line', 'StatusLineParser.Parse'), ('CSeq', 'ParseMessage')], 'fields of the first line')
P('P08', 'Line ends, empty lines before a message and folded headers do not change it',
  "A message is read the same with CRLF or LF at each line end and with any CR and LF before it. A header line continued on a line that begins with a blank or tab is read as one line without the line end and that blank or tab, so folding next to separators does not change a header and a text keeps all other blanks.",
  'inputs', '5 line ends each CRLF or LF, 0..4 line ends before; a Contact folded at any one or all of 4 places with 1..3 blanks; Subject texts of 2..3 visible characters and 0..2 more blanks',
  'Tests hold a few folded headers, each folded in one way.',
  'sip/parser/StringMsgParser.go', [('folding', 'ParseSIPMessageFromByte')], 'encoding of the message, text of the header')
P('P09', 'Numbers in header lines are read exactly or refused',
  "A Content-Length, Expires, Min-Expires, Max-Forwards, RSeq, Retry-After, CSeq or Warning line is accepted exactly when its number is digits alone and in range (CSeq and Expires below 2**31, Max-Forwards up to 255, Warning 300 to 399, RSeq from 1, the others up to 2**63-1), and then gives that number. RAck, MIME-Version, Timestamp, Retry-After durations and Subscription-State parameters give the numbers written, and a sign or letter in a Warning or Subscription-State number is refused.",
  'inputs', 'numbers of 1..4 (5) digits; around 2**31 and 2**63 with any last 2 (3) digits; of 20 to 22 digits; any 1..2 (3) visible characters that are no number',
  'Tests hold a few small numbers; overflow, signs and trailing text were accepted here.',
  'sip/parser/ContentLengthParser.go sip/parser/CSeqParser.go sip/parser/ExpiresParser.go sip/parser/RetryAfterParser.go sip/parser/SubscriptionStateParser.go core/CoreLexer.go', [('numbers', 'CoreLexer.Number, Parse of each header'), ('ranges', 'the setters of each header')], 'numbers of the parsed header')
P('P10', 'Authentication lines give scheme and parameters exactly as written',
  "An Authorization, Proxy-Authorization, WWW-Authenticate, Proxy-Authenticate or Authentication-Info line gives its scheme and the value of each parameter, names in any letter case and quoted values without their quotes, byte for byte, and nothing for the parameters not written. Stale is true for the word true in any case, a nonce count is read as 8 hexadecimal digits, and several challenges stay separate in order.",
  'inputs', 'schemes of 1..2 token characters, any two of 10 parameters, quoted values of 0..2 (3) characters, tokens of 1..2, all nonce counts, URIs of 1..3 (5) characters',
  'Tests compare encodings of a few challenges, so a wrong getter or lost quote passes.',
  'sip/parser/ParametersParser.go sip/parser/ChallengeParser.go sip/parser/AuthenticationInfoParser.go sip/header/AuthenticationImpl.go', [('parser', 'ChallengeParser.Parse, ParametersParser.Parse'), ('getters', 'Authentication.GetRealm, GetNonceCount, IsStale, GetURI')], 'getters of the parsed header')
P('P11', 'Lists, texts, media types and infos are read exactly as written',
  "A header list line gives its elements in order, each as written; media types, dispositions, events, call, alert and error infos, reasons, warnings, languages and encodings give their fields, parameters and q values; Subject, Organization, Priority and extension headers keep their text without outer blanks, and Server and User-Agent their products in order. A Date is accepted exactly when its day, hour, minute and second exist, and gives that time.",
  'inputs', '1..3 (4) elements of 1..2 token characters, 0..2 parameters, texts of 1..4 (6) characters, q values 0.1 to 1.0, any two digits for each field of a date',
  'Tests compare encodings of fixed lines and call no getter.',
  'sip/parser/AcceptParser.go sip/parser/ContentTypeParser.go sip/parser/CallInfoParser.go sip/parser/ReasonParser.go sip/parser/WarningParser.go sip/parser/SubjectParser.go sip/parser/UserAgentParser.go sip/parser/DateParser.go', [('lists', 'Parse of the list headers'), ('texts', 'SubjectParser.Parse, UserAgentParser.Parse'), ('dates', 'DateParser.Parse')], 'getters of the parsed header')
P('P12', 'Headers, first lines, addresses and hosts read alone as they do in a message',
  "ParseSIPHeader gives the same header for a line without a line end, with any line end, after blank lines or blanks, or folded, and reads the encoding of every header it accepted as the same header; ParseSIPRequestLine and ParseSIPStatusLine accept a line exactly when a message with it is accepted, with the same method, URI, version, code and reason. ParseAddress, ParseHost and ParseHostPort give exactly the display name, sip: or sips: URI, host and port written, or an error. A parser used for such pieces between messages reads the next message as a fresh one does, and a header parser made on a lexer reads the header at its place as one made on the line does.",
  'inputs,histories', '10 kinds of header beginnings with any 0..2 (3) bytes after them; 5 request and 4 status line shapes with any 0..2 (3) bytes; any 0..4 (6) bytes as address; ports of 1..5 digits',
  'Tests read headers through messages only, where line ends are gone (two defects were found here).',
  'sip/parser/StringMsgParser.go sip/parser/URLParser.go sip/parser/AddressParser.go core/HostNameParser.go', [('pieces', 'StringMsgParser.ParseSIPHeader, ParseSIPRequestLine, ParseSIPStatusLine, ParseAddress, ParseHost, ParseHostPort')], 'result or error, compared with the message parser')
