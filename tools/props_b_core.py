P('C01', 'The lexer looks ahead without moving and consumes exactly what it returns',
  "At every position of every text, peeking characters, tokens or lines never changes the position, and taking a token, keyword, character or line advances by exactly the returned text; tokens are the longest runs of token characters and lines end at their newline. The position only moves forward and never leaves the text, keywords match in any letter case, and looking or matching beyond the end is an error, never a panic.",
  'inputs,histories', 'texts of 0..6 (8) bytes at any position; lines of 0..7 (10) bytes; sequences of 3 (4) operations',
  'The only core test parses four fixed host names; the law quantifies over every text and position.',
  'core/CoreLexer.go core/StringTokenizer.go core/Token.go', [('tokeniser', 'CoreLexer.Ttoken, PeekNextTokenK, Match'), ('buffer', 'StringTokenizer.LookAheadK, GetLine, Consume')], 'returned tokens and the rest of the input')
P('C02', 'Quoted strings, comments, numbers and pairs are scanned exactly',
  "A quoted string ends at the first quote, and a comment at the parenthesis that closes it (comments may be nested), not escaped by a backslash, and it is an error exactly when that is missing; text up to a delimiter, numbers with their decimal value, and white space are read exactly to their end. A name=value pair yields the name and its token, quoted or empty value, and an unterminated quoted value or an overflowing number is an error.",
  'inputs', 'texts of 0..7 (9) bytes at any position; numbers of 17 to 21 digits',
  'Tests use a few well-formed headers; escapes and truncations at every position are out of their reach.',
  'core/CoreLexer.go core/CoreParser.go', [('scanners', 'CoreLexer.QuotedString, Comment, GetString, Number, ByteStringNoComma'), ('pairs', 'CoreParser.NameValue')], 'returned text, errors and position')
P('C03', 'Hosts and ports parse by the grammar and encode back',
  "A text is accepted as a host with optional port exactly when it starts with a host name, IPv4 address or bracketed IPv6 reference and any colon is followed by digits, and the host, port value and following text are exactly those written; the encoding parses to the same. Host objects put brackets around IPv6 addresses exactly once, keep set values, and clones are equal and independent.",
  'inputs', 'texts of 0..6 (8) bytes; hosts of 1..5 (7) bytes; every port',
  'Three fixed host names are tested, without checking the result.',
  'core/HostNameParser.go core/Host.go core/HostPort.go', [('parser', 'HostNameParser.GetHost, GetHostPort'), ('encoding', 'Host.String, HostPort.String')], 'host name, port and encoding')
P('C04', 'Name-value lists keep their pairs in order under any history',
  "After any sequence of adding, setting, deleting, concatenating and cloning, a name-value list holds exactly the expected pairs in order: names match in any letter case, a lookup gives the first pair of the name, setting leaves one pair of that name, deleting removes the first one and says whether there was one. The text is the pairs joined by the separator, with quotes exactly on quoted values and no separator for an absent value, and clones are equal and independent.",
  'inputs,histories', 'histories of 4 (5) operations with names of one ASCII character and values of one byte; pairs of 0..2 bytes',
  'Nothing tests the list; it needs histories of operations.',
  'core/NameValueList.go core/NameValue.go', [('list', 'NameValueList.SetNameValue, Delete, Concatenate, Clone'), ('pair', 'NameValue.String')], 'text, lookups and names')
