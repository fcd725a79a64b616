P('R01', 'RTP packets survive building and parsing',
  "A packet built from a payload type below 128 other than 72 and 73, marker, sequence number, timestamp, SSRC, at most 15 contributing sources, an optional extension and a payload is always built, and parsing its bytes gives back exactly those values and bytes. Any other payload type, or source and extension counts larger than the data given, is refused with an error and never a crash.",
  'inputs', 'all field values; 0..15 sources; extension of 0..2 (5) words; payload of 0..3 (8) bytes',
  'No test touches the rtp package; the law quantifies over all field values, list lengths and payloads.',
  'rtp/rtppacket.go rtp/rtp.go rtp/rawpacket.go',
  [('packet builder', 'rtp.NewPacket, RTPPacket.BuildPacket'), ('header codec', 'RTPHeader.Encode, RTPHeader.Parse'), ('parser', 'NewRTPPacketFromRawPacket')],
  'accessors of the built and of the re-parsed packet')
P('R02', 'RTP packets have the RFC 3550 wire layout',
  "The bytes of a built packet are version 2 with no padding, the X, CC, M and PT fields, then sequence number, timestamp, SSRC, the contributing sources in order, the extension header and words, and the payload, all big-endian and with nothing else. This holds for extensions of any 16-bit length.",
  'inputs', 'all field values; 0..15 sources; extension of 0..2 (5) words and of 16382..16385 words; payload 0..3 (8) bytes',
  'No test touches the encoder; a self-consistent but wrong layout passes any round-trip sample.',
  'rtp/rtppacket.go rtp/rtp.go', [('header encoder', 'RTPHeader.Encode'), ('extension encoder', 'RTPExtension.Encode')], 'RTPPacket.GetPacket')
P('R03', 'Any bytes parse as an RTP packet correctly or not at all',
  "For every byte string and for data not received as RTP, the packet parser returns either an error or a packet, never panics or loops. It accepts exactly the strings with version 2, a type that is not RTCP sender or receiver report, and sources, extension and padding that fit; then every accessor, including payload without padding, shows the bytes at their RFC 3550 position, also when the buffer it came from changes afterwards.",
  'inputs', 'all byte strings of the listed lengths up to 24 (44), and 71..76 (80) for long source lists',
  'No test feeds the parser; malformed lengths and counts are a vast input space.',
  'rtp/rtppacket.go rtp/rtp.go', [('packet parser', 'NewRTPPacketFromRawPacket'), ('header parser', 'NewRTPHeaderFromBytes'), ('extension parser', 'NewRTPExtensionFromBytes')],
  'error and accessors of the parsed packet')
P('R04', 'RTCP APP and BYE packets are read within their bounds',
  "For every byte string an APP or BYE packet reports a known format exactly when its length, source count, padding and reason length fit, and then its accessors return exactly the named bytes: name of four bytes, data and reason text without header and padding. A packet of unknown format reports nothing, and no input panics; a change of the buffer afterwards changes nothing.",
  'inputs', 'all byte strings of 0..24 (40) bytes',
  'No test touches RTCP; lengths, counts and padding come from untrusted bytes.',
  'rtp/rtcpapppacket.go rtp/rtcpbyepacket.go rtp/rtcppacket.go', [('APP', 'NewRTCPAPPPacket and accessors'), ('BYE', 'NewRTCPBYEPacket and accessors')], 'IsKnownFormat and accessors')
P('R05', 'RTP times are totally ordered and add and subtract exactly',
  "The four comparisons of two times form one total order in which a clone is equal to its original. Adding and then subtracting a time, or subtracting and then adding it, gives the first time back, results are normalised to less than a million microseconds, and the operand is never changed.",
  'inputs', 'any seconds; fractions from 6 (8) values including the extremes',
  'No test touches times; carries and borrows occur only for some pairs.',
  'rtp/rtptime.go', [('arithmetic', 'RTPTime.Add, RTPTime.Sub'), ('order', 'RTPTime.LT, GT, ELT, EGT')], 'comparison results')
P('R06', 'RTP and NTP times convert without drift',
  "Converting an NTP time since 1970 to an RTP time and back keeps the seconds and changes the fraction by less than two microseconds, never upwards, and conversion keeps the order of times. NTP times before 1970 become the epoch, and a time made from a number of seconds has that number's whole part and its fraction cut to microseconds, whose NTP form is exact for eighths of a second.",
  'inputs', 'any 32-bit seconds; listed fractions (64, thorough 256), order against any fraction',
  'No test touches times; rounding fails only at particular values.',
  'rtp/rtptime.go rtp/ntptime.go', [('conversion', 'NewRTPTimeFromNTPTime, GetNTPTime, NewRTPTimeFromFloat64')], 'NTP words and comparisons')
P('R07', 'The random generator is the 48-bit linear congruential sequence',
  "From any seed every draw, of 8, 16 or 32 bits or as a number in [0,1), advances the standard 48-bit linear congruential state once and returns its upper bits. Equal seeds, also after reseeding, give equal sequences.",
  'inputs,histories', 'any 32-bit seed, any sequence of 3 (6) draws of any kind',
  'No test touches the generator; a constant or shift error shows only against a reference sequence.',
  'rtp/random.go', [('state step', 'RandomRand48'), ('draws', 'GetRandom8, GetRandom16, GetRandom32, GetRandomDouble')], 'drawn values')
P('R08', 'RTP addresses compare correctly and collisions are tracked',
  "Two addresses are from the same host exactly when their host names or IP addresses are equal and the same address exactly when the ports agree too; both relations are symmetric and a clone is the same, independent address. A collision list contains exactly the addresses updated and not yet timed out or cleared, reports an update as new exactly when the address was absent, and keeps the time of the last update of each.",
  'inputs,histories', 'host names of 0..2 bytes, all IPv4 and IPv6 addresses, any port; histories of 4 (5) operations with times where the delay does not exceed the current time',
  'No test touches addresses; relations quantify over pairs and histories.',
  'rtp/address.go rtp/hostaddress.go rtp/ipaddress.go rtp/collisionlist.go', [('relations', 'IsSameAddress, IsFromSameHost'), ('collisions', 'CollisionList.UpdateAddress, HasAddress, Timeout, Clear')], 'relation results and lookups')
P('R09', 'Transmission settings, addresses and packets show what was set last',
  "Transmission parameters show the value set last, or their documented default, for every setting independently of the others. Transmission information shows its sockets and addresses in order and is of IPv4 exactly when its first address is an IPv4 address; an IP address is of type IPv4 exactly then too, in 4-byte as in 16-byte form, also after its IP is changed, and host and IPv4 addresses are written as host:port. A raw packet shows its data, time, sender and kind, and no data after these are cleared, and a parsed packet keeps the receive time of its raw packet for itself.",
  'inputs,histories', 'all values of every setting in 3 (4) changes, 1..3 addresses of 4 or 16 bytes, 5 IP texts, host names of 0..2 bytes, packets of 0..4 (8) bytes',
  'Nothing tests transmission parameters; IPv4 addresses come in two lengths.',
  'rtp/transmissionparams.go rtp/transmissioninfo.go rtp/ipaddress.go rtp/hostaddress.go rtp/rawpacket.go rtp/rtppacket.go', [('settings', 'TransmissionParams setters and getters'), ('kinds', 'NewTransmissionInfo, IPAddress.GetAddressType')], 'getters and texts')
