P('A01', 'SIP URIs parse into exactly their components and encode back',
  "Every text sip: or sips:[user[:password]@]host[:port]*(;name[=value])[?name=value*(&name=value)] over the RFC 3261 character sets, with a non-empty user before '@' and non-empty names, is accepted up to its last character, and the getters give exactly its user, password, host, port, parameters and headers in order, names matching in any letter case. A parameter without value is present with an empty value, and encoding gives the text back.",
  'inputs', 'users and passwords of 0..2 (3) characters or escapes, 4 host forms, ports of up to 3 (5) digits, 0..2 (3) parameters, 0..2 (3) headers',
  'Tests parse ten URLs and compare nothing but the encoding of the whole.',
  'sip/parser/URLParser.go sip/address/SipURIImpl.go sip/address/Authority.go sip/address/UserInfo.go', [('parser', 'URLParser.SipURL, User, Password, UriParam, Qheader'), ('encoding', 'SipURIImpl.String, Authority.String')], 'URI getters and encoding')
P('A02', 'Any text parses as a URI whose encoding is stable, or is refused',
  "For every text the URI parser returns either a URI or an error, and never panics, loops or reads past the end; an accepted URI has an encoding that is accepted again and reads back as the same kind of URI with the same scheme, user, password, host, port and encoding. A clone is equal, and the string entry points for SIP URLs, URLs and telephone numbers give a result or an error.",
  'inputs', 'any text of 0..7 (9) bytes; any 0..6 (8) bytes after sip:, sips: or sip:u@h; any 0..5 (7) bytes after tel:',
  'Crashes and hangs on truncated or odd URIs lie outside any list of examples; several were found here.',
  'sip/parser/URLParser.go sip/parser/StringMsgParser.go sip/address/URIImpl.go core/CoreLexer.go', [('parser', 'URLParser.UriReference, TelURL, SipURL, Uric'), ('entry', 'StringMsgParser.ParseSIPUrl, ParseUrl, ParSetelephoneNumber')], 'result or error and the second parse')
P('A03', 'Addresses keep their display name, brackets and URI',
  "A quoted display name is kept byte for byte, an unquoted one without outer white space, and the address ends after its closing bracket; the encoding is the quoted name, if any, and the URI in brackets, or the bare URI of an address without name or brackets. Every text is either refused without a crash or gives an address whose encoding reads back as the same name and URI; only addresses with a SIP URI are SIP addresses with host and port, and a wildcard encodes as *.",
  'inputs,histories', 'names of 0..2 (4) bytes or escapes; any text of 0..5 (7) bytes; any 0..4 (6) bytes before, within and after brackets and quotes; 2 (3) changes of an address object',
  'The address test compares five encodings.',
  'sip/parser/AddressParser.go sip/address/AddressImpl.go', [('parser', 'AddressParser.Address, NameAddr'), ('object', 'AddressImpl.String, IsSIPAddress, GetUserAtHostPort')], 'display name, URI and encoding')
P('A04', 'SIP URI objects show the last value set under any history of changes',
  "After any sequence of setting, removing and clearing user, password, host, port, scheme, parameters and headers of a SIP URI, each getter gives the last value set or its absent value, the encoding holds exactly these components, with a parameter set anew standing last, and reads back to the same encoding. Transport other than UDP or TCP, a time to live below one, an empty maddr and schemes other than sip and sips are refused without a change; names match in any letter case, and clones are equal and independent.",
  'inputs,histories', '2 (3) changes out of 19 kinds, on a new URI and on one read from text',
  'No test changes a URI after parsing it.',
  'sip/address/SipURIImpl.go sip/address/Authority.go sip/address/UserInfo.go core/NameValueList.go', [('parameters', 'SipURIImpl.SetParameter, SetUriParm, SetTransportParam, SetTTLParam, RemoveParameter'), ('clone', 'SipURIImpl.Clone')], 'getters and encoding after the changes')
P('A05', 'Telephone URLs parse, change and encode without loss',
  "Every text tel:[+]number*(;name=value) over the number and token characters is accepted; global flag, number and the parameters, a name repeated in any letter case giving its first value, are exactly those written, and encoding gives the text back. After any sequence of setting number, flag, sub-address, post-dial and parameters, removing parameters and cloning, the getters and encoding show the last values, with an empty value for what is absent.",
  'inputs,histories', 'numbers of 1..2 (3) characters, 0..2 (3) parameters; 2 (3) changes',
  'Tests parse four telephone URLs without parameters after the first.',
  'sip/parser/URLParser.go sip/address/TelURLImpl.go sip/address/TelphoneNumber.go', [('parser', 'URLParser.ParseTelephoneNumber, Tel_parameters'), ('object', 'TelephoneNumber.SetParameter, GetPostDial, Clone')], 'getters and encoding')
P('A06', 'Parts of addresses and telephone numbers show their last changes',
  "After any sequence of changes of a SIP URI's maddr, typed and default parameters, whole parameter and header lists, authority and telephone number, of an authority's user, password, host and port, of user information, and of a telephone number's digits, global flag, sub-address, post-dial and parameters, set, removed or set as a whole, the getters give the last values and the encoding holds exactly these. IPv6 addresses set as maddr are written in brackets, a default parameter never replaces one that is there, a user with # or ; is a telephone subscriber, and clones are equal and independent.",
  'inputs,histories', '2 (3) changes out of 10 kinds of a URI, 3 (4) of an authority or telephone number, any letter, digit or visible character as value',
  'No test changes a part of a URI.',
  'sip/address/SipURIImpl.go sip/address/Authority.go sip/address/UserInfo.go sip/address/TelphoneNumber.go', [('URI', 'SipURIImpl.SetMAddr, SetDefaultParm, SetUriParms, SetIsdnSubAddress'), ('parts', 'Authority.SetUser, UserInfo.SetUser, TelephoneNumber.SetParm, DeleteParm')], 'getters and encoding')
