P('M01', 'A response echoes the identity of its request and shares nothing with it',
  "CreateResponse and CreateResponse2 make of any request a response with the given code and reason (or the standard one) that has the request's Via, From, To, Call-ID, CSeq, Record-Route, Max-Forwards and Timestamp headers as far as the request has them, in order, Content-Length 0, no content and no other header. The response has the request's transaction and dialog identifiers; the request is unchanged, and later changes of either message's headers never show in the other.",
  'inputs,histories', 'requests lacking none or any one of the usual headers, 1..2 Vias, up to two of 15 extra headers (thorough: any two), a body or none, any token character as value, all codes 100..699',
  'Nothing tests building a response; a lost Via or a shared To tag shows in a proxy or server only.',
  'sip/message/SIPRequest.go sip/message/SIPMessage.go', [('building', 'SIPRequest.CreateResponse2'), ('attaching', 'SIPMessage.AttachHeader3')], 'headers of both messages')
P('M02', 'Derived requests have exactly the headers that belong in them',
  "CreateCancelRequest keeps all but Require, Proxy-Require, Content-Type and content; CreateAckRequest keeps all but Route, Proxy-Authorization, Content-Type, content and the Vias below the topmost, with the To given; CreateBYERequest, CreateACKRequest and CreateSIPRequest keep Call-ID, Max-Forwards, CSeq number, topmost Via without branch, and From and To without tags (swapped when asked); a response's CreateRequest keeps all but response headers, Vias, CSeq, Record-Route, Content-Type and content, with the given Via (ACK and CANCEL: with the response's branch) and CSeq. Each has Content-Length 0 and its method in request line and CSeq, and the URI of its request or the one given. The message it is derived from is unchanged, and later changes of either never show in the other.",
  'inputs,histories', 'requests and responses lacking none or any one of the usual headers, 1..2 Vias, up to two of 15 extra headers (thorough: any two), a body or none, any token character as value',
  'Nothing tests derived requests.',
  'sip/message/SIPRequest.go sip/message/SIPResponse.go', [('from requests', 'SIPRequest.CreateCancelRequest, CreateAckRequest, CreateSIPRequest'), ('from responses', 'SIPResponse.CreateRequest, SIPMessage.IsResponseHeader')], 'headers of both messages')
P('M03', 'A message has exactly the headers attached and not removed',
  "After any sequence of attaching, adding, setting and removing headers and lists of headers, a message has exactly the headers attached and not removed: of single headers the first attached (Content-Length: the last), of list headers all in order, added Vias and lists attached at the top first; setting replaces and moves to the end, and an empty list changes nothing. GetHeader (the first), GetHeaders, GetHeaderList, HasHeader (any letter case), GetHeaderNames (in order of attachment), the named getters and the encoding all agree, Content-Length being encoded last.",
  'histories', '2 operations on an empty or filled message for 8 kinds of headers, 3 for 3 (6) kinds, lists of 0..2 elements, any token character as value',
  'Header tables, lists and cached fields can disagree after particular sequences only; tests only parse.',
  'sip/message/SIPMessage.go sip/header/SIPHeaderList.go', [('attaching', 'SIPMessage.AttachHeader3, SetHeader, AddHeader'), ('removing', 'SIPMessage.RemoveHeader, RemoveHeader2')], 'getters and encoding')
P('M04', 'The Content-Length of a message is always the length of its content',
  "After any sequence of setting the content of a message as text or bytes, with or without a content type, removing it, and removing its Content-Length or Content-Type headers, the content is the one set last, HasContent tells whether it is not empty, and whenever content was set or removed last the Content-Length is its length in bytes. The encoding ends with Content-Length, an empty line and the content, and the encoded bytes are those of the text.",
  'histories', '3 (4) operations out of 9 on messages, requests and responses, contents of any 0..2 (3) bytes',
  'A wrong length shows after replacing or removing content only and breaks framing on streams.',
  'sip/message/SIPMessage.go', [('content', 'SIPMessage.SetContent, SetMessageContent3, SetMessageContentFromString, RemoveContent'), ('length', 'SIPMessage.setContentLength')], 'content, header and encoding')
P('M05', 'Transaction and dialog identifiers depend on exactly their parts',
  "The transaction identifier of a message whose topmost branch begins with z9hG4bK in any letter case is that branch in small letters; of any other message it is the hexadecimal form of user@host:port of the From URI, its tag, user@host:port of the To URI, Call-ID, CSeq number and method and the sent-by host and port (5060 if none) of the topmost Via, in small letters, joined by colons, and absent headers are left out. The dialog identifier is Call-ID and, as client, From and its tag, then To and its tag (own or given), as server in the reverse order, in small letters.",
  'inputs', 'branches of the magic cookie in any case and 0..3 (5) characters; any character as user, tag, Call-ID; CSeq numbers 0..99; each header present or absent; pairs of messages',
  'Tests compare no identifiers; a collision or missed match shows for particular pairs only.',
  'sip/message/SIPMessage.go sip/message/SIPRequest.go sip/message/SIPResponse.go sip/message/Utils.go', [('transaction', 'SIPMessage.GetTransactionId'), ('dialog', 'SIPRequest.GetDialogId, SIPResponse.GetDialogId, GetDialogId2')], 'identifiers')
P('M06', 'Status codes and their reasons are those of SIP',
  "Each of the 52 status code constants has the value SIP gives it and a reason phrase of its own, and no other number has a reason. A response takes codes 100..800 only and keeps its old one when another is refused; it is final exactly for 200..699, and without a status line it has code 0 and no reason.",
  'inputs', 'all pairs of 64-bit codes, reasons of 0..2 token characters',
  'Tests ask for no reason and set no code.',
  'sip/message/SIPResponse.go sip/message/Response.go', [('reasons', 'SIPResponse.GetReasonPhraseFromInt'), ('codes', 'SIPResponse.SetStatusCode, IsFinalResponse')], 'results')
P('M07', 'CheckHeaders accepts exactly messages with the headers they need',
  "CheckHeaders of a response is an error exactly when CSeq, To, From or Via is absent. That of a request is an error exactly when one of these or Max-Forwards is absent or the methods of its request line and CSeq, where both are there, differ in more than letter case.",
  'inputs', 'each of the five headers present or absent, methods of two letters in any case',
  'No test lacks a header.',
  'sip/message/SIPRequest.go sip/message/SIPResponse.go', [('check', 'SIPRequest.CheckHeaders, SIPResponse.CheckHeaders')], 'errors')
P('M08', 'A message gives back what its named setters set',
  "A message has no header, tag, method, URI or version before one is set, and afterwards gives the one set last through its named getters; a request's method goes into its CSeq too, an empty method and a bad Call-ID are refused, and a request without method is encoded with that of its CSeq. Via host and port are those of the topmost Via (port 5060 if it has none), SetDefaults sets user=ip and transport=udp on the SIP URI of INVITE and REGISTER, and headers that belong in requests or responses only are told apart, alone or in a list.",
  'inputs,histories', '15 named headers set twice; 3 (4) operations out of 8 on the request line; any token character as value; all ports; 15 kinds of headers',
  'Tests set nothing on a message.',
  'sip/message/SIPMessage.go sip/message/SIPRequest.go', [('headers', 'the setters and getters of SIPMessage'), ('request line', 'SIPRequest.SetMethod, SetRequestURI, SetRequestLineDefaults')], 'getters and encoding')
P('M09', 'A parsed request, its response and derived requests match on the wire',
  "A response, CANCEL, ACK or BYE made of a parsed INVITE has all headers it needs, is parsed again as the same message, and has the CSeq number, Call-ID and parties of the INVITE. Response, CANCEL and ACK are of the transaction of the INVITE and, with the To tag of the response, of its dialog; the response has all Vias and Record-Routes in order and no content.",
  'inputs', 'INVITEs with any token character as branch, tag and Call-ID, any alphanumeric users, CSeq 0..9, 1..2 Vias, with and without Record-Route and body; 4 codes',
  'Parser, headers, messages and encoder have to agree for every value, which no test follows through.',
  'sip/message/SIPRequest.go sip/parser/StringMsgParser.go sip/message/SIPMessage.go', [('derivation', 'SIPRequest.CreateResponse, CreateCancelRequest, CreateAckRequest, CreateBYERequest'), ('parser', 'StringMsgParser.ParseSIPMessage')], 'parsed messages and identifiers')
P('S01', 'Transaction, dialog and timeout states are found by their own number only',
  "Looking up a transaction state, dialog state or timeout gives, for each number of a state, the one object with that value and its own text, which is the named constant, and an error for every other number.",
  'inputs', 'all pairs of 64-bit numbers',
  'Nothing tests the package.',
  'sip/TransactionState.go sip/DialogState.go sip/Timeout.go', [('lookup', 'GetTransactionState, GetDialogState, GetTimeout')], 'results')
P('M10', 'A built request or response is read from its text as it was',
  "The text of a request or response built with any kinds of headers, none or one of the usual ones lacking, with or without content, is read by the message parser as a message with the same first line, headers of each name in order, content, transaction and dialog identifiers, and text. GetMessageAsEncodedStrings gives the first line and every header by itself, those of lists one by one in order, each of which ParseSIPHeader reads as that header, and SetHeaders takes all headers of one message into another. The version, content length and unrecognized lines set on a message are those it gives.",
  'inputs', 'every of 46 kinds of headers, alone (thorough: and every pair of 15), 1..3 Vias, any user character as value, 4 codes and reasons, bodies of any 1 byte; 3 (4) settings',
  'Encoder and parser must agree for every kind of header in combination, which tests follow through for a few texts only.',
  'sip/message/SIPMessage.go sip/message/SIPRequest.go sip/message/SIPResponse.go sip/header/SIPHeaderList.go sip/parser/StringMsgParser.go', [('encoding', 'SIPMessage.String, GetMessageAsEncodedStrings, SIPHeaderList.GetHeadersAsEncodedStrings'), ('parser', 'StringMsgParser.ParseSIPMessage, processHeader')], 'parsed message, lists of strings')
