#!/usr/bin/env python3
# Writes /verif/properties.jsonl (single source for the property texts).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe,hook_needed=None)))
R='radius/src/'
PK=R+'core/packet.rs'; AT=R+'core/attributes.rs'; AV=R+'core/avp.rs'; CO=R+'core/code.rs'; TG=R+'core/tag.rs'
VS=R+'core/vsa.rs'; RQ=R+'core/request.rs'; SV=R+'server.rs'; CL=R+'client.rs'
p('C01','Packet decoding accepts exactly the well-formed packets, faithfully',
 'Decoding a byte string succeeds exactly when it has at least 20 bytes, its big-endian Length field is between 20 and 4096 and not larger than the byte string, and the bytes from 20 up to Length split exactly into attributes whose length octet is at least 2 and stays inside. The decoded packet then carries the code, identifier, 16-byte authenticator, the given secret, and exactly those attributes with their types, values and order, and bytes after Length are ignored. Every other byte string is rejected with an error of the kind that applies (too short a payload, header length too small, header length too large, malformed attributes) and never panics.',
 ['inputs'],'for every byte string (any length, any content) and every secret',
 'The tests decode a handful of RFC sample packets; none exercises attribute framing errors at every offset, the Length/buffer boundary, trailing bytes or attribute sequences in general.',
 [PK,AT,CO],[('Packet::decode',PK),('Attributes::decode',AT),('Code::from',CO)],['Packet::decode result and accessors'])
p('C02','Packet encoding emits the RADIUS wire layout and never an invalid packet',
 'When encoding succeeds, the bytes are: code, identifier, a two-byte big-endian length equal to the total number of bytes (at most 4096), a 16-byte authenticator field, then every attribute in order as type, value length plus two, value. Encoding fails with an encoding error, rather than emitting bytes, exactly when some attribute value is longer than 253 bytes or the total would exceed 4096 bytes, and with an unknown-code error for packet codes that have no defined encoding.',
 ['inputs'],'for every packet the library can hold: every code, identifier, authenticator, secret and attribute list of any size',
 'Tests encode RFC samples and one oversized-attribute list; sums that overflow 16 bits, the exact 253/4096 boundaries and all codes are not reachable by a few samples.',
 [PK,AT],[('Packet::encode',PK),('Packet::marshal_binary',PK),('Attributes::encode',AT)],['Packet::encode result'])
p('C03','Encoding then decoding returns the same packet, and decoding is canonical',
 'Whenever a packet encodes, decoding the result with the same secret succeeds and returns the same code, identifier and attribute list (types, values, order), and the same authenticator for packets whose authenticator is sent verbatim. Conversely re-encoding the attributes of any decoded packet reproduces the attribute bytes it was decoded from.',
 ['inputs'],'for every packet that encodes and every byte string that decodes',
 'Round trips in the tests cover a few sample packets; the inverse relation must hold for every attribute list.',
 [PK,AT,CO],[('Packet::encode',PK),('Packet::decode',PK),('Attributes::encode',AT),('Attributes::decode',AT)],['decode(encode(p))'])
p('C04','Encoded packets carry the authenticator the RADIUS RFCs prescribe',
 'Encoding an Access-Request or Status-Server packet emits its stored authenticator unchanged; encoding an Accounting-, Disconnect- or CoA-Request emits MD5(code+id+length+16 zero bytes+attributes+secret); encoding any supported response emits MD5(code+id+length+stored request authenticator+attributes+secret). Consequently, with a non-empty secret, every encodable request passes the library\'s own request verification, and every encodable response made from a decoded request, or from a constructed request whose authenticator is sent verbatim, passes its response verification against that request\'s bytes under the shared secret.',
 ['inputs'],'for every packet code, attribute list, authenticator and secret',
 'Tests compare fixed RFC vectors for a few codes; the formula must hold for all attribute lists, secrets and codes.',
 [PK],[('Packet::encode',PK),('Packet::make_response_packet',PK),('Packet::is_authentic_request',PK),('Packet::is_authentic_response',PK)],['Packet::encode bytes 4..20','is_authentic_* on encoded bytes'])
p('C05','Authenticity verification decides exactly the RFC authenticator predicate',
 'Request verification returns true exactly when the request has at least 20 bytes, the secret is non-empty, and the code is Access-Request or Status-Server, or is Accounting-, Disconnect- or CoA-Request with bytes 4..20 equal to MD5(first 4 bytes+16 zero bytes+bytes from 20+secret). Response verification returns true exactly when both byte strings have at least 20 bytes, the secret is non-empty and the response\'s bytes 4..20 equal MD5(response first 4 bytes+request bytes 4..20+response bytes from 20+secret). Neither ever panics.',
 ['inputs'],'for every request, response and secret byte string',
 'Tests check a few accepting vectors and very few rejecting ones; a verifier that accepts too much is invisible to accepting samples.',
 [PK,CO],[('Packet::is_authentic_request',PK),('Packet::is_authentic_response',PK)],['returned bool'])
p('C06','Attribute list operations: append, delete and lookup touch only what they name',
 'Adding an attribute (or several) appends it at the end and changes nothing else; deleting a type removes every attribute of that type and keeps the others in order, changing nothing else of the packet. Looking up a type returns the first attribute of that type or nothing when there is none, and looking up all returns every attribute of that type in order.',
 ['inputs','histories'],'for every packet, attribute list, attribute type and sequence of such operations',
 'Tests look up attributes right after adding one; repeated types, interleavings and the untouched rest are not sampled.',
 [PK,AT],[('Attributes::add/extend/del/lookup/lookup_all',AT),('Packet::add/extend/delete/lookup/lookup_all',PK)],['Packet::lookup_all for every type after each operation'],
 [dict(name='Packet attributes',meaning='ordered attribute list',where=AT)])
p('C07','Plain attribute values round-trip exactly and wrong lengths are rejected',
 'An attribute built from a 16-bit or 32-bit integer, IPv4 or IPv6 address, UTF-8 string, byte string or date (whole seconds since 1970 within 32 bits) holds exactly the big-endian integer, the address octets, the UTF-8 bytes, the bytes, or the big-endian seconds, and reading it back returns the same value. Reading an integer, address or date succeeds exactly when the value has the required number of bytes (otherwise an invalid-length error), and reading a string succeeds exactly when the bytes are valid UTF-8 (otherwise a decoding error).',
 ['inputs'],'for every value, attribute type, and every attribute byte content and length',
 'Tests round-trip one value per type and check one wrong length.',
 [AV],[('AVP::from_u16/u32/ipv4/ipv6/string/bytes/date',AV),('AVP::encode_u16/u32/ipv4/ipv6/string/bytes/date',AV)],['AVP constructors and readers'])
p('C08','Tagged attribute values keep tag and value, and tag rules are enforced',
 'A tagged integer is stored as the tag octet (0 when absent) followed by the 4 big-endian bytes, and reads back exactly when it has five bytes and a tag octet of at most 0x1F; an empty value is reported as a missing tag, a larger tag octet as an invalid tag, another length as an invalid length. A tagged string is stored as the tag octet, when a tag is given, followed by the UTF-8 bytes; it reads back as (rest, tag) when the first octet is 0x01..0x1F, is rejected when it is 0 or the value is empty, and reads as the whole string without tag when the first octet is larger.',
 ['inputs'],'for every tag octet, value, and attribute byte content',
 'Tests use one tag value each; the 0x00, 0x1F/0x20 boundaries and arbitrary contents are not covered.',
 [AV,TG],[('AVP::from_tagged_u32/encode_tagged_u32',AV),('AVP::from_tagged_string/encode_tagged_string',AV),('Tag::is_valid_value/is_zero',TG)],['AVP constructors and readers'])
p('C09','User-Password hiding follows RFC 2865 and is undone exactly',
 'Hiding a password of at most 128 bytes with a non-empty secret and 16-byte request authenticator produces the RFC 2865 section 5.2 ciphertext (zero-padded 16-byte blocks, at least one, each XORed with MD5(secret + previous ciphertext block or authenticator)), and otherwise fails with the error kind for the violated condition. Recovering it with the same secret and authenticator returns the password up to its first NUL byte, hence exactly the original for passwords without NUL; values of fewer than 16 or more than 128 bytes, empty secrets and authenticators of other lengths are rejected without panicking.',
 ['inputs'],'for every password, secret, authenticator and attribute content of any length',
 'Tests round-trip a few passwords; block chaining, lengths around every multiple of 16 and the rejection limits need all inputs.',
 [AV],[('AVP::from_user_password',AV),('AVP::encode_user_password',AV)],['AVP::from_user_password bytes and AVP::encode_user_password result'])
p('C10','Tunnel-Password hiding is salted, bounded and undone exactly',
 'Hiding a tunnel password of at most 240 bytes with a non-empty secret and 16-byte request authenticator yields the tag octet (0 when absent), a two-byte salt whose top bit is set, and the zero-padded 16-byte blocks chained by MD5(secret + authenticator + salt), then MD5(secret + previous ciphertext block); longer passwords, empty secrets or other authenticator lengths are rejected. Recovering accepts exactly values of 19 to 243 bytes with (length-3) a multiple of 16, a salt with the top bit set, a non-empty secret and a 16-byte authenticator, and returns the tag octet and the password up to its first NUL byte, so whatever the library hides it can recover.',
 ['inputs'],'for every password, tag, secret, authenticator, random salt and attribute content',
 'Tests round-trip a few short passwords with random salts; the limits and the chaining for all lengths are not covered.',
 [AV],[('AVP::from_tunnel_password',AV),('AVP::encode_tunnel_password',AV)],['AVP::from_tunnel_password bytes and AVP::encode_tunnel_password result'])
p('C11','IP prefix attributes use the RFC layout and read back the prefix',
 'An IPv4 prefix attribute is accepted only for exactly 4 prefix bytes and is stored as a zero octet, the prefix length 32 in bits, and those bytes; an IPv6 prefix attribute is accepted for at most 16 prefix bytes and is stored as a zero octet, the prefix length in bits (8 per byte), and those bytes. Reading back returns exactly the prefix bytes after the two header octets; IPv4 values not of 6 bytes and IPv6 values shorter than 2 bytes are rejected with an invalid-length error.',
 ['inputs'],'for every prefix byte string and every attribute content',
 'Tests round-trip one prefix; round trips cannot see a wrong prefix-length octet.',
 [AV],[('AVP::from_ipv4_prefix/encode_ipv4_prefix',AV),('AVP::from_ipv6_prefix/encode_ipv6_prefix',AV)],['raw attribute bytes'])
p('C12','Vendor-specific attributes serialise to the RFC 2865 sub-attribute layout',
 'A vendor-specific string serialises to the 4-byte big-endian vendor id, the vendor type octet, a vendor length octet, the tag octet for tagged ones, and the UTF-8 value, and nothing else. Adding such an attribute to a packet appends exactly one Vendor-Specific attribute (type 26) that holds this serialisation and changes nothing else. The vendor length octet and the reported length equal two (three when tagged) plus the value length whenever that sum fits one octet.',
 ['inputs'],'for every vendor id, vendor type, tag and string value (length octet: values for which it fits)',
 'Tests check one vendor id and one value per kind.',
 [VS],[('StringVSA::new/message/len',VS),('TaggedStringVSA::new/message/len',VS),('add_vsa_attribute',R+'core/rfc2865.rs')],['VSA::message and VSA::len'])
p('C13','Every dictionary attribute has accessors using its type code and encoding',
 'For every attribute of the supported RFC dictionaries, its add accessor appends to a packet exactly one attribute with the dictionary\'s type code and the encoding of the dictionary\'s data type (with tag, password hiding, fixed length or concatenation as flagged), changing nothing else and leaving the packet unchanged on error. Its lookup accessors return the decoded value of the first attribute of that type (nothing when absent) or of all of them in order, and its delete accessor removes exactly the attributes of that type.',
 ['inputs','configurations'],'for every dictionary attribute (24 RFC dictionaries), every packet and every value',
 'Tests exercise a few attributes; a wrong type code or decoder in one of several hundred generated accessors is invisible to them, and add/lookup round trips hide a consistently wrong code.',
 [R+'core/rfc2865.rs',R+'core/rfc2868.rs','dicts/','code-generator/src/main.rs'],[('generated accessors',R+'core/rfc*.rs'),('code generator','code-generator/src/main.rs')],['raw attributes after add_*','results of lookup_*'])
p('C14','Dictionary constants have the attribute codes and enumerated values assigned',
 'Every attribute type constant equals the dictionary\'s attribute number and every named enumerated-value constant equals the dictionary\'s value for it.',
 ['configurations'],'for every attribute and named value of the 24 dictionaries',
 'Tests reference a handful of the 338 constants.',
 [R+'core/rfc2865.rs',R+'core/rfc2866.rs','dicts/'],[('generated constants',R+'core/rfc*.rs')],['the public constants'])
p('C15','Long octet attributes are split into 253-byte pieces and reassembled exactly',
 'Adding a value to an attribute flagged as concatenated appends consecutive attributes of that type holding the value cut into pieces of 253 bytes (the last one possibly shorter, none empty), and changes nothing else. Looking it up returns the concatenation of all attributes of that type in order, or nothing when there are none, so any non-empty value added to a packet without that attribute is returned unchanged and such an attribute is never too large to encode.',
 ['inputs'],'for every value length and every packet content',
 'Tests add one long value; boundaries at multiples of 253 and interleaved other attributes are not sampled.',
 [R+'core/rfc2869.rs',R+'core/rfc5904.rs'],[('add_/lookup_ of concat attributes',R+'core/rfc*.rs')],['raw attributes after add_*','lookup_* result'])
p('C16','No input makes the packet and attribute code panic',
 'Decoding, verifying, looking up, reading and re-encoding never panic, index out of bounds or overflow, whatever bytes were received and whatever secret, authenticator or value the caller passes. Failures are reported only through the returned error, boolean or empty result.',
 ['inputs'],'for every byte string received, every attribute content, and every argument of the packet, attribute and dictionary functions',
 'A panic on one crafted length cannot be excluded by sampling.',
 [PK,AT,AV,VS,TG],[('length guards before slicing',AV),('length guards before slicing',AT),('length guards before slicing',PK)],['absence of panics'])
p('C17','The server hands over only authentic, decodable requests with a known secret',
 'The handler is invoked for a datagram only when the secret provider, asked with the sender\'s address, returned a non-empty secret, the datagram passes request verification under that secret (unless validation is switched off, which it is not by default), and the datagram decodes. It then receives the packet decoded from exactly that datagram with that secret, the sender\'s address as remote address and the server\'s address as local address; every datagram that fits the receive buffer, meets the conditions and is not a duplicate in progress is handed over exactly once, and other datagrams are dropped without stopping the server.',
 ['inputs','histories'],'for every datagram content, sender, secret provider answer and configuration',
 'The single end-to-end test sends one good and one bad-secret request.',
 [SV,RQ],[('Server::process_request',SV),('Server::run_loop',SV),('Server::set_skip_authenticity_validation',SV),('Request accessors',RQ)],['handler invocations and their arguments'])
p('C18','A request in progress is never handled twice, and is forgotten when finished',
 'While the handler is running for a sender address and port and identifier, another datagram with the same sender and identifier is not handed to the handler; the decision is atomic under concurrency. When the handler finishes, successfully or with an error, the same sender and identifier can be handled again, and requests that differ in sender or identifier never suppress each other.',
 ['schedules','histories'],'for every interleaving of concurrent request tasks that do not panic, and every history of requests',
 'No test sends concurrent duplicates; the check-and-insert atomicity depends on schedules.',
 [SV],[('Server::process_request in-flight set under one write lock',SV)],['number of concurrent handler invocations per key'],
 [dict(name='in-flight request set',meaning='keys of requests whose handler is running',where=SV)])
p('C19','The client sends the encoded request and returns only authentic responses',
 'Sending a packet transmits exactly one datagram, the encoding of the given request, to the given address, and, when a datagram arrives in time, returns a packet exactly when that datagram verifies as an authentic response to those request bytes under the request\'s secret and decodes; the returned packet is that decoding. Encoding, transport, timeout, verification and decoding failures are reported as errors and never as a response packet.',
 ['inputs','histories'],'for every request packet and every byte string a peer may answer with',
 'The end-to-end test only meets a well-behaved server; forged or malformed answers are never tried.',
 [CL],[('Client::send_packet',CL),('Client::request',CL)],['datagram sent','returned result for crafted answers'])
p('C20','Packet construction keeps the given code, secret, identifier and authenticator',
 'A new packet has the given code and secret, no attributes, a 16-byte authenticator and the given identifier when one is specified; changing the identifier changes nothing else. A response made from a packet has the requested code, the same identifier, authenticator and secret, and no attributes.',
 ['inputs'],'for every code, secret, identifier and packet',
 'Tests build a few packets.',
 [PK],[('Packet::new/new_with_identifier/set_identifier/make_response_packet',PK)],['accessors and encode of the constructed packet'])
p('C21','Packet codes map to their assigned numbers and names and back',
 'Every packet code has its assigned number (1,2,3,4,5,11,12,13,40-45,255, and 0 for invalid) and name; converting a number gives the code with that number, and every unassigned number gives the invalid code.',
 ['inputs'],'for all 256 octet values and all codes',
 'Tests touch a few codes.',
 [CO],[('Code::from',CO),('Code::string',CO)],['Code::from, Code as u8, Code::string'])
p('C22','Debug output of a packet never contains the secret',
 'Formatting a packet for debugging shows its code, identifier, authenticator and attributes, and its output is independent of the secret.',
 ['inputs'],'for every packet and every secret',
 'Tests check one secret value at most.',
 [PK],[('Debug for Packet',PK)],['format!("{:?}", packet)'])
p('C23','The two hash back ends are indistinguishable',
 'With either selectable MD5 back end, packet encoding, request and response verification, and password hiding and recovery accept, reject and return the same for the same inputs (for the same random salt).',
 ['inputs','configurations'],'for both back-end configurations and every input',
 'The stable tests build only the default configuration.',
 [AV,PK],[('duplicated feature-gated implementations',AV),('duplicated feature-gated implementations',PK)],['results under each cargo feature'])
p('C24','Concurrent traffic: one request never affects the outcome of another',
 'The response handling of a request depends only on its own datagram, sender, the provider\'s answer and the duplicates in progress: a slow, failing or rejected request does not block, drop or alter other requests, and the server keeps serving until its shutdown trigger fires.',
 ['schedules','histories'],'for every interleaving of concurrent requests and handler outcomes',
 'Tests send requests one at a time.',
 [SV],[('one task per datagram',SV),('Server::run',SV)],['handler invocations under concurrency'])
p('C25','Client timeouts are honoured',
 'When a timeout is configured and the peer does not answer in time, sending a packet ends with the corresponding timeout error, and without a configured timeout it waits.',
 ['schedules'],'for every timing of the peer',
 'One end-to-end sample.',
 [CL],[('tokio timeout',CL)],['elapsed time and error'])
p('C26','Authenticators, identifiers and salts are unpredictable',
 'The authenticator and identifier of a new packet and the salt of a hidden tunnel password come from a cryptographically strong random source.',
 ['histories'],'over all sequences of constructed packets',
 'Unpredictability is not a property of samples.',
 [PK,AV],[('rand::thread_rng',PK)],['distribution'])
p('C27','Regenerated dictionary modules are complete, compile and keep the guarantees',
 'Running the code generator over the shipped dictionaries emits, for every dictionary file, a module that compiles with the crate and offers the same named constants and accessors as the shipped one, and each of them keeps the guarantees of the shipped ones: the dictionary\'s numbers, add appends exactly one attribute of that type with the encoding of the data type and options (concatenated octets: the pieces in order), lookups return the decoded values, delete removes exactly that type. The same holds for dictionaries that use any supported data type with any supported option (string, octets, octets[n], ipaddr, ipv4prefix, ipv6addr, ipv6prefix, ifid, date, integer, short, vsa; has_tag on string and integer, encrypt=1 on string, encrypt=2 with has_tag on string, concat on octets), with comments, and whose VALUE lines name attributes of the same or of an earlier dictionary.',
 ['inputs','configurations'],'for every shipped dictionary, every supported type and option, every packet and every value',
 'No test runs the generator or looks at what it emits; a template error shows only in the accessors of the next regeneration.',
 ['code-generator/src/main.rs']+['radius/src/core/rfc2865.rs'],[('generate_*_attribute_code','code-generator/src/main.rs'),('parse_dict_file','code-generator/src/main.rs'),('generate_values_code','code-generator/src/main.rs')],['emitted modules, compiled into the crate'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
