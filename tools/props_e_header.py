P('H01', 'Numbers of headers are kept exactly when they are in range',
  "Setting a number of a header (lengths, expiry, hop and sequence counts, versions, warning and cause codes, durations, ttl, nonce counts, timestamps, q values) succeeds exactly for the values in its range, then reads back as set, and a refused value is an error that leaves the old value, while other numbers of the header stay. Max-Forwards counts down by one and refuses to go below 0, and removed delays and q values are absent.",
  'inputs,histories', '14 numbers for all 64-bit values; 6 numbers kept as text for -20..1100 (20000) and around their limits; all 32-bit floats for timestamps, delays and q values out of range; 1..3 (5) count downs',
  'Tests set no number; range errors show at the limits of 8, 31, 32 and 64 bits only.',
  'sip/header/MaxForwardsImpl.go sip/header/CSeqImpl.go sip/header/RSeqImpl.go sip/header/RAckImpl.go sip/header/TimeStampImpl.go sip/header/WarningImpl.go sip/header/ContactImpl.go', [('setters', 'MaxForwards.SetMaxForwards, CSeq.SetSequenceNumber, Warning.SetCode, TimeStamp.SetDelay, Via.SetTTL'), ('count', 'MaxForwards.DecrementMaxForwards')], 'errors and values read')
P('H02', 'Parameters of a header show the last value under any history',
  "After any sequence of setting, setting quoted, removing and clearing parameters, each of the 18 kinds of headers with parameters has exactly the parameters set and not removed, in the order first set, each with its last value. They are encoded after the header's value as ;name=value, with quotes once the value was set quoted; names match in any letter case, and what is absent reads as empty.",
  'histories', '2 (3) operations on each kind, 4 (5) on one, with values of any token character; pairs of names of 1..2 token characters',
  'No test changes a parameter after parsing.',
  'sip/header/ParametersImpl.go sip/header/AddressParametersImpl.go core/NameValueList.go', [('parameters', 'Parameters.SetParameter, SetQuotedParameter, RemoveParameter, RemoveParameters'), ('encoding', 'EncodeBody of the headers')], 'getters and encoding')
P('H03', 'A header is encoded with exactly what its setters set, and reads back',
  "A header of any of 52 kinds built by its setters has its canonical name and is encoded as that name, a colon and a blank, the fields set and CRLF, with no field that was not set; its value is what follows the name. The header parser accepts that line and gives a header that is encoded the same.",
  'inputs', 'values of 1..2 token characters, numbers up to 12, each optional field set or not, one parameter set, set quoted or none',
  'Tests only encode headers that were parsed, so a field lost by a setter is never seen.',
  'sip/header/*Impl.go sip/parser/*Parser.go', [('encoding', 'String, EncodeBody, GetValue of each header'), ('setters', 'the setters of each header')], 'encoding, value and the parsed header')
P('H04', 'Header lists keep their elements in order and are encoded as one header',
  "After any sequence of adding at either end, removing, cloning and joining with another list or itself at either end, a header list of any of 24 kinds holds exactly its elements in order. It is encoded as its name and the values joined by commas, challenges and extension headers each on their own line; the encoded strings, methods and contacts of a list are one per element in order, and cloned elements are new objects.",
  'histories', '3 (4) operations, joined lists of 0..2 elements, elements of any alphanumeric character; 0..3 (4) methods',
  'Nothing tests the lists but single parsed lines.',
  'sip/header/SIPHeaderList.go sip/header/ViaList.go sip/header/ContactListImpl.go sip/header/AllowList.go sip/header/ExtensionList.go', [('joining', 'SIPHeaderList.Concatenate'), ('encoding', 'SIPHeaderList.String, EncodeBody, GetHeadersAsEncodedStrings'), ('clone', 'SIPHeaderList.Clone and of each list')], 'elements and encoding')
P('H05', 'A Via shows the protocol, host, port and parameters set last',
  "After any sequence of setting transport, host, port, comment, branch, received, maddr and ttl of a Via, removing port, comment and parameters, and cloning, each getter gives the value set last or its absent value (-1 for port and ttl), and values refused are errors without effect. It is encoded as SIP/2.0, the transport in capital letters, host, port, comment and the parameters in the order first set.",
  'histories', '4 (5) operations out of 17 with any token characters, ports 1..65535, ttl 0..255',
  'Via is what routes responses; tests only encode parsed ones.',
  'sip/header/ViaImpl.go sip/header/Protocol.go core/HostPort.go', [('fields', 'Via.SetPort, SetTransport, SetTTL, SetMAddr, SetReceived, SetBranch, RemovePort'), ('encoding', 'Via.EncodeBody')], 'getters and encoding')
P('H06', 'Authentication headers quote what needs quotes and keep the last value',
  "After any sequence of setting, removing and refused changes, an Authorization, Proxy-Authorization, WWW-Authenticate, Proxy-Authenticate or Authentication-Info header has the last value of each parameter and is encoded as its scheme and the parameters in order, separated by commas. Realm, nonce, opaque, domain, algorithm, qop, username, cnonce, response and URI are quoted, the nonce count is 8 hexadecimal digits and stale is a word, both unquoted; a value that begins with a quote is refused, and the line reads back the same.",
  'histories', '2 (3) operations out of 15, values of 1..2 characters without quote and backslash, nonce counts 0..15',
  'No test sets an authentication parameter.',
  'sip/header/AuthenticationImpl.go sip/header/AuthenticationInfoImpl.go sip/header/AuthorizationImpl.go sip/header/WWWAuthenticateImpl.go', [('setters', 'Authentication.SetParameter, SetNonceCount, SetURI, SetStale'), ('encoding', 'Authentication.EncodeBody')], 'getters and encoding')
P('H07', 'A cloned header is equal and shares nothing with its original',
  "The clone of a header of any of 52 kinds is encoded the same as the header. A change of either one through its setters, its parameter list, its address, its URI or its call identifier changes only that one; the same holds for a list of headers and its elements.",
  'inputs', 'values of 1..2 token characters, numbers up to 12, each optional field set or not, up to 3 kinds of change per header',
  'Nothing tests cloning; messages and dialogs rely on it.',
  'sip/header/*Impl.go', [('clone', 'Clone of each header'), ('parameters', 'Parameters.cloneParameters')], 'encodings after the change')
P('H08', 'Call identifiers are split at @, and refused values leave a header as it was',
  "A Call-ID, In-Reply-To or call identifier takes every text that is not empty and has something before and after its first @, and gives the parts around it and the whole back; other texts are refused. Setters of methods, option tags, encodings, realms, tags, event types, states and texts refuse an empty value; a refused value leaves the old one.",
  'inputs', 'identifiers of any 0..6 (9) bytes; 20 setters with values of 1..2 token characters',
  'Tests set no identifier and no refused value.',
  'sip/header/CallIdentifier.go sip/header/CallIdImpl.go sip/header/InReplyToImpl.go sip/header/CSeqImpl.go', [('identifier', 'CallIdentifier.SetCallID, String'), ('header', 'CallID.SetCallId, InReplyTo.SetCallId')], 'errors, parts and text')
P('H09', 'From and To keep tag, address and parameters, also when made from each other',
  "After any sequence of setting and removing tags, parameters and addresses, cloning, and making a From of a To or a To of a From, both headers have the tag, display name, user and host set last, and are encoded with the address in angle brackets followed by their own parameters. A change of one never shows in the other.",
  'histories', '4 (5) operations out of 7 on each of both, names, users, tags and values of any one character, addresses with and without name or brackets',
  'Tags identify dialogs; no test sets or removes one.',
  'sip/header/FromImpl.go sip/header/ToImpl.go sip/header/AddressParametersImpl.go', [('tags', 'From.SetTag, RemoveTag, To.SetTag, RemoveTag'), ('copies', 'From.CloneTo, To.CloneFrom')], 'getters and encoding of both')
P('H10', 'Request and status lines are encoded from the values set last',
  "A request line is encoded as its method, URI and version, and a status line as SIP/2.0, its code and its reason, each separated by one blank and ended by CRLF. The getters give the values set last, and the major and minor version are what stands before and after the first dot.",
  'inputs', 'methods of 1..4 (8) token characters, any user character, versions of 1..2 digits each, all codes 100..699, reasons of 0..5 (8) characters',
  'Tests encode parsed lines only.',
  'sip/header/RequestLine.go sip/header/StatusLine.go', [('encoding', 'RequestLine.String, StatusLine.String'), ('versions', 'GetVersionMajor, GetVersionMinor')], 'getters and encoding')
P('H11', 'Media ranges and events match exactly when they differ in letter case only',
  "A Content-Type matches a media range, and an Event another with the same type and id or both without id, exactly when the texts differ in letter case only; an Accept allows all types or subtypes exactly when that part is *. A Content-Type and Accept-Language give the values set last, and an empty one has no type.",
  'inputs', 'types of 1..3 (5) and subtypes and ids of 1..2 token characters',
  'Nothing tests matching.',
  'sip/header/ContentTypeImpl.go sip/header/EventImpl.go sip/header/AcceptImpl.go sip/header/MediaRange.go', [('matching', 'ContentType.CompareMediaRange, Event.Match, Accept.AllowsAllContentTypes')], 'results of the comparisons')
P('H12', 'Headers made from a value, address, URI or parameter list show and encode it',
  "A header constructed from a token, address, URI, call identifier, number and method or media type, or given a whole media range or parameter list, shows exactly that value through all its getters, is encoded from it, and its encoding reads back as the same header; changing it afterwards replaces the value. The display name, host, port and user that From, To and Reply-To show are those of their address, and absent without one; a parameter found by name in any letter case is the pair of the list, so that changing it changes the header.",
  'inputs', 'tokens of 1..3 (4) characters, names and users of any letter or digit, 4 ports, 0..2 (3) parameters, quoted or not, on headers of 18 kinds',
  'Tests construct no header from values; an encoding that the parser refuses shows for particular kinds only (two were found here).',
  'sip/header/*Impl.go sip/header/MediaRange.go sip/header/RequestLine.go sip/parser/RetryAfterParser.go sip/parser/SubscriptionStateParser.go', [('constructors', 'NewAllowFromString ... NewRouteFromAddress, NewErrorInfoFromURI, NewCSeq'), ('lists', 'Parameters.SetParameters, GetNameValue, GetParameterNames')], 'getters, encoding and the header read back')
P('H13', 'Via, challenge, product and Retry-After headers show their last changes',
  "After any sequence of changes of a Via's protocol, version, transport, host, port and sent-by, of a challenge's scheme and parameters, of an Authentication-Info's parameters, of a Retry-After's number, comment, duration and parameters, or of the products of a Server or User-Agent, by part, as a whole or through the objects it shows, the getters give the last values and the encoding holds exactly these, protocol names and transports in capital letters. Empty protocols and comments, negative numbers and missing lists are refused without a change, and clones are equal and independent.",
  'inputs,histories', '3 (4) changes out of 6..9 kinds each, any token character as value, 0..3 products',
  'No test changes these headers.',
  'sip/header/ViaImpl.go sip/header/Protocol.go sip/header/Challenge.go sip/header/AuthenticationInfoImpl.go sip/header/RetryAfterImpl.go sip/header/ServerImpl.go sip/header/UserAgentImpl.go', [('changes', 'Via.SetSentBy, SetSentProtocol, Challenge.SetParameter, RetryAfter.SetDuration, Server.SetProduct'), ('encoding', 'Protocol.String, Challenge.String, EncodeBody')], 'getters and encoding')
