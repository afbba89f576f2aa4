import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,title
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
SRV='cli/receiver/server/server.go'; PKG='libs/egts/egts_pkg.go'; SDR='libs/egts/service_data_records.go'; RD='libs/egts/record_data.go'
TCP='bytes, order and close events on the TCP connection'; SAVE='Save calls on every configured store (record, order, result)'
p('C01','Packets are recognised however the byte stream is cut into segments',
 'What the receiver answers and stores for a connection is a function of the bytes the client sent, not of how TCP cut them into segments: a packet split at any point, several packets in one segment, and packets of any legal size (up to the largest header and body the length fields can express) are each recognised exactly at their boundaries. Nothing of one packet is ever taken for part of another.',
 ['schedules','inputs'],'every byte stream of packets, valid or rejected, of every legal size and every segmentation of it over time',
 'TestServer sends one packet in one write; the outcome depends on where the kernel cuts the stream and on packet sizes near the 16-bit limits.',
 [SRV],[('ReadFull of a 10-byte header, then HL+FDL+2 bytes',SRV+' handleConn')],[TCP,SAVE])
p('C02','Each accepted data packet is answered once, in order, for all its records',
 'For every well-formed application data packet the client gets exactly one acknowledgement, naming that packet\'s identifier with processing result 0 and confirming each of its records exactly once by record number, in record order; acknowledgements come in the order of the packets on that connection. A record that itself carries a record confirmation is not confirmed, a packet consisting only of such records and a response packet get no answer at all.',
 ['inputs','histories','schedules'],'every history of packets on a connection: any number of records, any record numbers (repeats and wrap-around included), any mix of packet kinds, concurrent connections',
 'The tests look at one packet with one record; loss, duplication, reordering or mixing of confirmations needs longer histories.',
 [SRV],[('srResponsesRecord accumulates one SR_RECORD_RESPONSE per record','cli/receiver/server/server.go handleConn'),('createPtResponse',SRV)],[TCP])
p('C03','A record is confirmed as processed only after every store accepted it',
 'A position record is confirmed with status 0 only if every configured store has already accepted it when the confirmation is sent. If any store reports a failure for a record, that record - and no other - is confirmed with a non-zero status.',
 ['fault_sequences','schedules'],'every pattern of failing and slow stores over every record of every packet, with any number of stores',
 'No test has a failing or slow store; the order of storing and confirming and the status after a failure are invisible to them.',
 [SRV,'cli/receiver/storage/store.go'],[('Save before createPtResponse; its error becomes the record status',SRV+' handleConn'),('Repository.Save returns an error if any store failed','cli/receiver/storage/store.go')],[TCP,SAVE])
p('C04','Each position record reaches every store once, in order, and nothing else does',
 'Each record of an accepted data packet that contains position data is handed exactly once to every configured store, in the order of the records on its connection, before later records of that connection; records without position data, response packets and rejected packets store nothing. A failing store neither keeps the other stores from getting that record nor any store from getting the following ones.',
 ['histories','fault_sequences','schedules'],'every sequence of packets and records over any number of connections and stores, with any pattern of store failures',
 'Tests save one record to one store that never fails.',
 [SRV,'cli/receiver/storage/store.go'],[('isPkgSave per record, one Save per record',SRV+' handleConn'),('Repository.Save loops over all stores','cli/receiver/storage/store.go')],[SAVE])
p('C05','The stored record says what the terminal sent',
 'The record handed to the stores carries the time, signed latitude and longitude (hemisphere flags included), speed in whole km/h, course of 0-359 degrees, satellites, navigation system and dilutions of precision, analog and liquid sensor readings (number, error flag, value in the transmitted unit) in order of appearance, and the record number (packet identifier unless counters 110/111 give it) of that very record, and the moment it was received. Fields that were not transmitted are zero or empty; nothing leaks from another record, packet or connection.',
 ['inputs','histories'],'all field values, all combinations and orders of subrecords within a record, all sequences of records',
 'Values are 32-bit spaces combined with presence flags; the tests check one packet and none of the stored values.',
 [SRV,'cli/receiver/storage/packet.go','libs/egts/egts_sr_pos_data.go'],[('subrecord switch fills a fresh NavRecord per record',SRV+' handleConn')],[SAVE])
p('C06','Records are attributed to the terminal that sent them',
 'A stored record carries the object identifier of its own record header if there is one, a terminal identity sent in the same record taking precedence, and otherwise the most recent identifier (object or terminal) announced earlier on the same connection, or 0 if there was none. Identifiers announced on one connection never affect records of another connection or of a later one.',
 ['histories','schedules'],'every interleaving of identity announcements and records over any number of concurrent and successive connections',
 'Needs multi-step histories with several connections; tests use one record on one connection.',
 [SRV],[('client variable local to handleConn',SRV+' handleConn')],[SAVE],[('client','last announced identifier of the connection',SRV)])
p('C07','Authorisation requests get a result code; nothing else does',
 'An accepted data packet that contains a terminal identity or authentication subrecord is answered with its acknowledgement followed by exactly one well-formed data packet carrying a result code subrecord with code 0 for the authorisation service; no other packet triggers a result code.',
 ['inputs','histories'],'every packet with any number and position of identity/authentication subrecords, and every packet without them, in any history',
 'No test sends an authorisation packet.',
 [SRV],[('createSrResultCode',SRV)],[TCP])
p('C08','Damaged or unsupported packets are refused with the reason and change nothing',
 'A packet whose header form, header checksum, type, encryption, body form or body checksum is wrong is answered with exactly one acknowledgement that carries the packet identifier and a non-zero result naming a fault the packet really has (131, 137, 133, 129, 132, 138), confirms no record and stores nothing. The connection stays usable: packets before and after it are served as if it had not been there, including the identity of the terminal.',
 ['inputs','histories'],'every kind of damage to any part of any packet at any position of a history',
 'Tests contain no negative case at all for the receiver and none for the order of checks in the library.',
 [SRV,PKG],[('Package.Decode result codes',PKG),('reply with result code and continue reading',SRV+' handleConn')],[TCP,SAVE])
p('C09','Streams that are not EGTS are disconnected',
 'If the bytes at a packet boundary cannot begin an EGTS packet (protocol version other than 1, or a header length below the minimum), the receiver closes that connection without answering or storing anything for them, whatever follows; packets completely received before are unaffected.',
 ['inputs','histories'],'every first byte and header length at every packet boundary of a stream, with anything before and after',
 'No test sends a foreign stream.',
 [SRV],[('first header byte and HL check',SRV+' handleConn')],[TCP])
p('C10','No client can take the receiver down or disturb other clients',
 'Whatever one client sends, at whatever point it disconnects, stalls or stops reading, the receiver process keeps running, keeps accepting connections and serves every other connection exactly as if that client did not exist.',
 ['inputs','schedules','fault_sequences'],'every byte sequence (in particular every header) from one client, every point of disconnecting or stalling, while others are being served',
 'A single well-behaved client is tested.',
 [SRV,PKG,SDR,RD],[('one goroutine per connection',SRV+' Run'),('length validation before slicing',PKG)],['process liveness',TCP,SAVE])
p('C11','Silent connections are closed after the configured time, active ones are not',
 'With a positive connection lifetime, a connection on which no data arrives for longer than it - before the first packet, between packets, in the middle of a packet, or because the client does not read its answers and so keeps the receiver from reading on - is closed by the receiver soon after, and not before; a connection whose packets keep arriving within it is never closed. With a lifetime of 0 a silent connection stays open.',
 ['schedules','configurations'],'every lifetime and every arrival pattern of bytes over time',
 'The only test with a lifetime closes the connection itself.',
 [SRV,'cli/receiver/config/config.go'],[('read deadline per packet, write deadline per answer',SRV+' handleConn, send')],[TCP])
p('C12','Decoding never crashes or hangs, whatever the bytes',
 'Decoding any byte sequence as a packet, a record set, or any kind of subrecord returns - either a value or an error - without panicking, without looping and without reading outside the input.',
 ['inputs'],'all byte sequences of all lengths, in particular all values of every length, count and flag field',
 'The library tests decode well-formed samples only.',
 [PKG,SDR,RD,'libs/egts/'],[('bounds come from readers and validated lengths','libs/egts')],['public Decode functions'])
p('C13','Packets survive encoding and decoding unchanged',
 'Encoding a packet whose fields are in range produces a packet whose header, record and subrecord lengths, checksums and optional fields are consistent, and decoding it yields the same packet; decoding a canonical packet and encoding the result gives back the same bytes. A packet that cannot be represented (data longer than the length field can say, flag fields that are neither unset, which counts as zero, nor bits of their width) is refused by the encoder, however deep inside the packet it lies.',
 ['inputs'],'all packets: both types, every combination of header options, any number of records and subrecords of every kind up to the size limit',
 'Round trips are tested for a handful of packets; that test package does not even compile at this commit.',
 [PKG,SDR,RD,'libs/egts/egts_pt_response.go'],[('Package.Encode/Decode',PKG),('ServiceDataSet.Encode/Decode',SDR),('RecordDataSet.Encode/Decode',RD)],['public Encode/Decode functions'])
p('C14','Position subrecords are read and written according to the standard',
 'For position and extended position subrecords each field is read from, and written to, its place and width in the EGTS standard for every combination of presence flags: absent fields take no bytes and decode to zero, trailing bytes are tolerated, latitude and longitude are exact to one wire unit, speed to 1 km/h.',
 ['inputs'],'all values of all fields under all flag combinations',
 'One sample per type with one flag combination.',
 ['libs/egts/egts_sr_pos_data.go','libs/egts/egts_sr_ext_pos_data.go'],[('SrPosData, SrExtPosData codecs','libs/egts')],['public Encode/Decode functions'])
p('C15','Sensor, counter and state subrecords are read and written per the standard',
 'For the analog/digital sensor, counter, absolute sensor, absolute counter, liquid level and terminal state subrecords each reading is read from and written to its own place and numbered field for every combination of presence flags; absent fields take no bytes and decode to zero.',
 ['inputs'],'all values of all fields under all 256 combinations of each presence mask',
 'One sample per type; masks select among 2^8 or 2^16 layouts.',
 ['libs/egts/egts_sr_ad_sensors_data.go','libs/egts/egts_sr_counters_data.go','libs/egts/egts_sr_abs_cntr_data.go','libs/egts/egts_sr_abs_an_sensors_data.go','libs/egts/egts_sr_liquid_level_sensor.go','libs/egts/egts_sr_state_data.go'],[('sensor subrecord codecs','libs/egts')],['public Encode/Decode functions'])
p('C16','Identity, authentication and confirmation subrecords are read and written right',
 'For terminal identity, module data, dispatcher identity, authentication, result code and record confirmation subrecords, and for the response packet body, each field is read from and written to its place in the standard for every combination of presence flags, with text fields of any content and length their format allows.',
 ['inputs'],'all values, all flag combinations, all text contents and lengths',
 'One or two samples per type, partly in test files that do not compile.',
 ['libs/egts/egts_sr_term_identity.go','libs/egts/egts_sr_module_data.go','libs/egts/egts_sr_dispatcher_identity.go','libs/egts/egts_sr_auth_info.go','libs/egts/egts_sr_result_code.go','libs/egts/egts_sr_response.go','libs/egts/egts_pt_response.go'],[('identity subrecord codecs','libs/egts')],['public Encode/Decode functions'])
p('C17','Corrupted packets are never accepted',
 'A packet whose header bytes do not match its header checksum or whose body does not match its body checksum (CRC-8 and CRC-16 of the EGTS standard) is never decoded successfully; in particular any one-bit error and any burst no longer than the checksum, in header, body or the checksums themselves, is detected, and a header fault is reported as such, not as a body fault.',
 ['inputs','fault_sequences'],'all packets and all error patterns',
 'Tests feed intact packets only; a weakened check (a prefix, one byte, skipped for some type) passes them.',
 [PKG,'libs/egts/crc.go'],[('crc8 over the header, crc16 over the body',PKG+' Decode'),('crc8, crc16','libs/egts/crc.go')],['Package.Decode result'])
p('C18','Truncated data is refused, never padded',
 'Data that ends before a field, subrecord, record or packet that its lengths and flags announce is refused with an error at every level of decoding; no value is ever made up from missing bytes. (The one tolerated form is a last record whose data is absent altogether.)',
 ['inputs'],'every truncation point of every packet, record set and subrecord under every flag combination; every announced length beyond the data',
 'No negative tests exist.',
 [PKG,SDR,RD,'libs/egts/'],[('io.ReadFull in all decoders','libs/egts')],['public Decode functions'])
p('C19','Unknown subrecords are skipped without affecting their neighbours',
 'A subrecord of a type the library does not know is skipped by its announced length, whatever its content; all other subrecords and records of the packet are decoded, stored and confirmed exactly as if it were absent, and its data never reaches the stored record.',
 ['inputs'],'every unknown type, every content and length including 0, at every position among other subrecords and records',
 'No test has an unknown subrecord.',
 [RD,SRV],[('default branch of the type switch',RD)],['Decode result',TCP,SAVE])
p('C20','Lengths and types left to the encoder are filled in correctly',
 'When header length, frame length, record length, subrecord length or subrecord type are left unset, encoding fills them with the values that describe the encoded data, for every kind of subrecord and any nesting; the length reported by any encodable element equals the number of bytes it encodes to.',
 ['inputs'],'every element kind, value and nesting, with any subset of the length and type fields unset',
 'Samples set most lengths explicitly.',
 [PKG,SDR,RD,'libs/egts/'],[('Length methods and defaults in Encode',RD)],['public Encode and Length functions'])
p('C21','Encrypted packets need the key, and the key round-trips them',
 'A packet whose header announces encryption is decoded only through the supplied key: without a key, or if the key reports an error, encoding and decoding fail (129) and nothing decoded is taken from the ciphertext; with the key, decoding an encoded packet yields the original, the body checksum and lengths being those of the ciphertext. Unencrypted packets never touch the key.',
 ['inputs','configurations'],'every packet, every encryption flag value, every key behaviour (length-preserving or not, failing)',
 'No test uses a key except one XOR-free sample.',
 [PKG],[('SecretKey option',PKG)],['Package.Encode/Decode'])
p('C22','Stopping the server ends Run and accepts no new clients',
 'After Stop, Run returns promptly and new connections are refused, while sessions already accepted continue to be served; stopping twice or before start does not crash.',
 ['schedules','histories'],'Stop at any moment relative to connections, packets in progress and Run',
 'The server test stops at exit without observing anything.',
 [SRV],[('Stop closes the listener, Run returns on net.ErrClosed',SRV)],['return of Run',TCP])
p('C23','The receiver starts with what its configuration says',
 'The receiver listens on the configured host and port, sends records to every storage the configuration names, with its lifetime and log level as configured; if no storage is configured or one of them is unknown or cannot be initialised, records are printed to the log, at level INFO, instead of being lost. A missing or unreadable configuration ends the program with a failure instead of a running receiver.',
 ['configurations'],'every configuration: any subset of storages, reachable or not, unknown names, missing sections, malformed files',
 'Only parsing of one sample file is tested.',
 ['cli/receiver/main.go','cli/receiver/config/config.go','cli/receiver/storage/store.go','cli/receiver/storage/default.go'],[('config.New, LoadStorages, LogConnector fallback','cli/receiver/main.go')],['listening socket, storage backends, log output, exit code'])
p('C24','Storage connectors deliver the exact record and report failures',
 'For each supported backend, a save that reports success has handed the backend exactly one message whose content is the record\'s JSON form, in the configured place (queue, topic, exchange and key, table, database) with the configured credentials; a save the backend refuses or cannot receive (also: for want of a table, topic or queue) reports an error, and a save can be handed over a second time only if the connection broke while its answer was awaited. Initialising fails without the address of the backend (Redis: also without a queue; Tarantool: also without usable numbers), with refused credentials, and against an unreachable backend.',
 ['inputs','fault_sequences','configurations'],'every record content, every configuration, every refusal or disconnection by the backend',
 'Integration tests need live databases and never run here; none covers failures.',
 ['cli/receiver/storage/store/'],[('Init and Save of each connector','cli/receiver/storage/store')],['messages at the backend wire, results of Init and Save'])
p('C25','packet-gen sends what it was asked to and reports the truth',
 'The generator sends exactly one valid packet carrying the requested packet identifier, client, time, coordinates (all four hemispheres) and liquid level, and exits with 0 if and only if the first packet the server answers with, complete within the timeout, acknowledges that packet with result 0 and confirms its record with status 0; values its packet cannot carry are refused and nothing is sent.',
 ['inputs','fault_sequences'],'all argument values; every kind of answer: correct, wrong identifier, error result or record status, malformed, split into segments, late or none',
 'It has no tests.',
 ['cli/packet-gen/main.go'],[('main','cli/packet-gen/main.go')],['bytes sent, exit code'])
p('C26','EGTS-plus data round-trips and malformed data is refused',
 'The protobuf payload of an EGTS-plus subrecord decodes to its fields by their numbers and wire types, encodes back to an equal message, and is refused when it is malformed or lacks a required field; it never affects the other subrecords of its record.',
 ['inputs'],'all messages over the schema, all truncations and wire-type errors',
 'One sample.',
 ['libs/egts/egts_sr_egtsplus_data.go'],[('StorageRecord Encode/Decode','libs/egts/egts_sr_egtsplus_data.go')],['public Encode/Decode functions'])
p('C27','Everything the receiver sends is a valid EGTS packet',
 'Every byte the receiver sends belongs to a complete, well-formed EGTS packet (protocol version 1, unencrypted, no route, right lengths and both checksums) whose records are addressed from and to the service that sent the request; nothing is sent unasked, interleaved with or cut off by another answer.',
 ['inputs','histories','schedules'],'every reply in every history, up to acknowledgements of packets with thousands of records',
 'One reply of 29 bytes is compared.',
 [SRV,PKG],[('createPtResponse, createSrResultCode',SRV)],[TCP])
p('C28','What a connection used is released when it ends',
 'When a connection ends - by whichever side, at whatever point, served, refused, silent or stalled - the receiver closes its descriptor and stops working for it, after at most the connection lifetime. What the receiver can serve is limited by the connections open at one time, not by how many there have been; clients that come when it has run out of descriptors wait, and are served as soon as others leave.',
 ['histories','schedules','fault_sequences'],'every history of connections and of the ways they end; descriptors running out at any point of it',
 'The tests open one connection and never look at what is left of it.',
 [SRV],[('deferred Close in handleConn, deadlines on every read and write, Accept retried',SRV)],[TCP,'open sockets and goroutines of the receiver process'])
p('C29','What packet-gen reports is what the storages have, from end to end',
 'When packet generators send reports to a running receiver: a generator that exits with 0 has its report in every configured storage, with the client, packet number, time, coordinates and liquid level that were asked for; a generator whose report a storage refused exits with a failure, and one that got no refusal and was given the time does not. Every report that was taken in is handed to every storage exactly once (again only if the connection to that storage broke), and nothing else ever is - for any number of generators at once or one after the other, equal requests included, and also if the receiver is killed and started again in between.',
 ['inputs','schedules','fault_sequences','crash_points'],'every set of requests, every interleaving of generators, every combination of verdicts of several storages, a kill of the receiver at any point',
 'No test runs the generator, the receiver and a storage together; each link can look right on its own and the chain still be wrong.',
 ['cli/packet-gen/main.go',SRV,'cli/receiver/storage/store.go','libs/egts/egts_pkg.go'],[('main','cli/packet-gen/main.go'),('handleConn',SRV),('Repository.Save','cli/receiver/storage/store.go')],['arguments and exit code of each generator, messages each storage backend is handed'])
p('C30','send_egts.py replays a file of packets faithfully',
 'For every file of hexadecimal packets (any number and length of packets, blank lines anywhere, with or without a newline at the end) and every server: the bytes that tools/send_egts.py sends are the packets of the file, all of them, whole and in order, the next one only after something of the answer to the one before has arrived; it shows each packet and, for each, an answer, where what is shown is what the server sent, in order; it ends with success if every packet was answered, it does not succeed without a server, and it ends when the server closes.',
 ['inputs','schedules','fault_sequences'],'every file of packets, every pace and segmentation of answers, a server that closes at any point',
 'No test runs the tool, and the recorded files have one shape only.',
 ['tools/send_egts.py'],[('main','tools/send_egts.py')],['bytes received by the server, output and exit code of the tool'])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
