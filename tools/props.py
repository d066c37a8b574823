import json
R="src/rust/src/"
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
C=R+"core/"; L=R+"lite/"; W=R+"webrtc/"; CM=R+"common/"

p("C01","1:1 call lifecycle only moves forward; a terminating call is inert",
"A 1:1 call only ever makes the documented lifecycle moves (not started, waiting to proceed, connecting, connected, accepted, reconnecting, terminating, terminated), each only in response to the event that documents it. Once a call is terminating or terminated, no later event other than the final hang-up over the media channel, the teardown itself and synchronisation changes its state, sends signaling or media, or reaches the application.",
["histories","schedules"],"every sequence of API calls, signaling messages, timers and connection events, in every call state",
"The tests (not even among the stable ones) drive a handful of event orders; the state x event matrix and late events after hang-up are not enumerated.",
[C+"call_fsm.rs",C+"call.rs",CM+"mod.rs"],[("central event filter once terminating","CallStateMachine::handle_event"),("per-event state tables","CallStateMachine::handle_*"),("state predicates","common::CallState")],state=[("Call.state","lifecycle state",C+"call.rs")])
p("C02","Each peer connection follows its own lifecycle and goes quiet when terminated",
"A connection reports connected, reconnecting, accepted and failed only in the states where that move is documented, and reports a state change to its call only when the state really changed. Once a connection is terminating or terminated every further event is dropped, except those that are part of the teardown.",
["histories","schedules"],"every interleaving of ICE, data-channel, local API and timer events, in every connection state",
"Tests sample a few ICE event orders on the simulator; they cannot enumerate each event in each state, or events queued behind a teardown.",
[C+"connection_fsm.rs",C+"connection.rs",CM+"mod.rs"],[("event filter","ConnectionStateMachine::handle_event"),("state predicates","common::ConnectionState"),("notify on change","Connection::set_state")],state=[("Connection.state","connection lifecycle",C+"connection.rs")])
p("C03","No audio, video or data of a 1:1 call flows before the callee accepts",
"In a 1:1 call, incoming audio is played, outgoing audio and video are sent and media is reported to the application only after the call has been accepted (locally by the callee, or by the accepting device's message for the caller). No other path turns on any of the media engine's switches for incoming or outgoing media, playout or recording, lets RTP reach a callee, or hands the incoming media to the application.",
["histories","schedules","inputs"],"every event order and every message content before acceptance",
"A privacy leak needs one path that enables media too early; tests check that accepted calls get media, not that no other path enables it.",
[C+"call.rs",C+"call_fsm.rs",C+"connection.rs",C+"connection_fsm.rs",C+"call_manager.rs"],[("media enabling only on acceptance","Call::accept_locally / on_accepted, Connection media enable"),("media gating of call state","CallStateMachine")])
p("C04","Hang-ups end the right calls and are propagated only to the other devices",
"A hang-up from the remote side ends the call only if it is for that call and applies to this device: an incoming call ignores one that says it was sent on behalf of this very device, and once one remote device is active only that device's hang-up counts. An outgoing call that gets a normal or need-permission hang-up from one of the ringing devices tells the other devices exactly that (declined on another device, or need-permission, naming the sender) and excludes the sender; hang-ups never echo back to the device that sent them.",
["histories","inputs"],"every hang-up type, sender device, call direction and call state",
"Tests cover some hang-up types in some states; the product of type, device, direction and state is not enumerated.",
[C+"call_fsm.rs",C+"call.rs",C+"call_manager.rs",C+"signaling.rs"],[("received hang-up table","CallStateMachine::handle_received_hangup"),("propagation rules","common::CallState::should_propagate_hangup / Call::send_hangup_via_rtp_data_and_signaling_to_all_except")])
p("C05","Only the remote device that accepted drives an outgoing call",
"When an outgoing call rings several remote devices, the first one that accepts becomes the only active device for the rest of the call, all the others are told that the call was accepted elsewhere, and connections to devices that were not chosen are dropped. After that, connection-state, media-status, hang-up and route events of the other devices have no effect on the call or the application.",
["histories","schedules"],"every order of accepts, connection events and status messages from any number of remote devices",
"The simulator tests use one or two remote devices in fixed orders; races between acceptances are not covered.",
[C+"call_fsm.rs",C+"call.rs"],[("active device set once","Call::set_active_device_id"),("device filter on events","CallStateMachine::handle_connection_observer_event")])
p("C06","Messages and commands for another call or peer never affect the active call",
"An answer, ICE candidate, hang-up, busy or application command that names a call id or a peer other than the active call's never changes, accepts, ends or adds anything to the active call. Messages held for a call that has not started yet are bounded in number and replayed only to the call with the same id and the same peer.",
["inputs","histories"],"every call id, peer and message, arriving at any point of a call's life",
"Tests send a few messages with a wrong id; the check has to be present on every path of every entry point.",
[C+"call_manager.rs"],[("call-id and peer comparison in every handler","CallManager::handle_received_* / handle_accept_call / handle_proceed / ..."),("held messages","pending_call_messages")])
p("C07","At most one call at a time, and the busy flag always matches it",
"A new outgoing call, incoming offer or group-call join is taken only when no other call or group call is in progress; otherwise it is refused (an incoming offer is answered with busy and reported). The marker that the user is busy is set exactly when a call becomes the active one and released exactly once when that call or group call ends, so after every ending a new call can be made.",
["histories","schedules","fault_sequences"],"every interleaving of calls, joins, failures and endings",
"A leak or a double release needs a particular failure at a particular point of set-up; tests only end calls in ordinary ways.",
[C+"call_manager.rs",C+"group_call.rs"],[("busy flag with its users","CallManager.busy, CallManager::release_busy, Client join/leave")],state=[("busy","a call or joined group call exists",C+"call_manager.rs")])
p("C08","Simultaneous calls (glare) and re-calls are resolved the same way on both sides",
"When an offer from a peer arrives while a call with that same peer is active, the call ids are compared: the higher id wins and continues, the lower one is given up, and equal ids end both; the two sides therefore always agree. A re-call from the same device replaces the old call only once that call is at least connected and accepted, and an offer from a different peer or device gets busy.",
["histories","inputs"],"every pair of call ids, direction, state and device of the existing call when an offer arrives",
"Tests try a few glare situations; agreement needs the whole decision table, which tests do not enumerate.",
[C+"call_manager.rs"],[("collision decision table","CallManager::handle_received_offer / check_for_collision")])
p("C09","Signaling messages go out one at a time, in order, and none is lost or repeated",
"At most one signaling message is handed to the application for sending at any time, the next one only after the application reports the outcome of the previous one (or a new call starts, which lets messages flow again), in the order they were produced. When a call ends, its unsent messages are dropped except hang-up and busy; a failed send ends the call unless the failed message was an ICE candidate of an already connected call.",
["schedules","histories","fault_sequences"],"every interleaving of producers, send confirmations, send failures and call endings",
"Ordering and loss under concurrent producers and failures cannot be seen in single-threaded scripted tests.",
[C+"call_manager.rs"],[("message queue with in-flight flag","SignalingMessageQueue, CallManager::send_next_message, message_sent_ok, message_send_failure, trim_messages")])
p("C10","Stale offers and stale group rings never ring",
"An incoming 1:1 offer that is older than the maximum age when it is received is reported as expired and never starts a call or rings. A group ring that is older than the maximum age is never reported as ringing, only as expired.",
["inputs","histories"],"every message age and every state at receipt",
"Tests use ages far from the limit and one state; the limit must be applied on every path before anything rings.",
[C+"call_manager.rs"],[("offer age check","CallManager::validate_offer / handle_received_offer"),("ring age check","CallManager::handle_received_call_message")])
p("C11","Ending a call always finishes the teardown and reports its end exactly once",
"Whatever ends a 1:1 call, all of its connections are closed and their resources released even if one of the steps fails, its timers stop, its pending messages are dropped, and the application is told that the call concluded exactly once, after everything else. An ended call can no longer be found as the active call.",
["histories","fault_sequences","schedules"],"every way of ending, failure during teardown, and concurrent event",
"Failures in the middle of a teardown are not injected by the tests.",
[C+"call.rs",C+"call_manager.rs",C+"connection.rs",C+"connection_fsm.rs"],[("teardown sequence","CallManager::terminate_call, Call::terminate, Connection::terminate"),("conclusion on drop","impl Drop for Call")])
p("C12","In-call control messages count only if for this call and newer than the last",
"A control message received over the media channel of a 1:1 call (accepted, hang-up, sender status, receiver status) has an effect only if it carries this connection's call id. A sender or receiver status counts only if its sequence number is strictly greater than every one processed before, and packets older than the newest one received are dropped, so replayed or reordered messages are ignored. Whenever the state to be told changes, the next message carries the next higher sequence number, and every message carries the full accumulated state, so that losing any of them loses nothing.",
["inputs","histories"],"every sequence of received packets, including duplicated, reordered, truncated and foreign ones",
"The stable tests do not run any of this code; the simulator tests deliver messages in order.",
[C+"connection.rs",C+"connection_fsm.rs"],[("sequence number filter","Connection::handle_rtp_received / ConnectionStateMachine"),("accumulated message","Connection accumulated_rtp_data_message")])
p("C13","1:1 media keys come from a contributory key exchange bound to both identities",
"In a 1:1 call, whenever the other side sent a public key, both offer and answer carry media keys derived from a fresh Diffie-Hellman exchange with it; the key must be exactly 32 bytes and contributory, and the derivation is bound to the caller's and callee's identity keys in that order. The caller uses the offer half for what it sends, the callee the answer half, each half split as key then salt, and a malformed or degenerate public key fails the call instead of continuing without encryption.",
["inputs","configurations"],"every remote public key, identity key pair and direction",
"Round-trip tests pass even if both sides share the same mistake; that keys depend on the identities and that bad keys are refused is not tested.",
[C+"connection.rs",W+"sdp_observer.rs"],[("key negotiation","connection::negotiate_srtp_keys"),("keys placed in SDP","SessionDescription::disable_dtls_and_set_srtp_key")])
p("G01","A media frame is decrypted only after its MAC verified; failures change nothing",
"A received end-to-end encrypted frame is decrypted, and the receive keys for its sender are advanced, only if its authentication tag over nonce, length and ciphertext verifies, compared in constant time over its full length. If it does not verify, an error is returned, no plaintext is produced, and the receive keys stay exactly as they were.",
["inputs","histories"],"every ciphertext, nonce, tag, ratchet counter and earlier history of the receive state",
"The unit tests flip one byte of one tag; order of verification and state change must hold for every path.",
[C+"crypto.rs"],[("verify then decrypt then commit","crypto::Context::decrypt, crypto check_mac / decrypt_internal")],state=[("receiver states","per-sender ratchets",C+"crypto.rs")])
p("G02","No media frame nonce is ever used twice with the same key",
"Every encrypted frame uses a frame counter strictly greater than that of any earlier frame of the same sender, and neither advancing the ratchet nor replacing the secret ever sets the counter back. The nonce and the authentication cover the counter that is sent with the frame, and a media frame whose counter does not fit the wire format is refused instead of being sent with a truncated counter.",
["histories","inputs"],"every sequence of encrypt, ratchet-advance and key-reset operations",
"Tests check a few frames; nonce reuse needs a specific sequence of resets that no test performs.",
[C+"crypto.rs"],[("frame counter","crypto::Context::encrypt, SenderState")],state=[("frame counter","next nonce",C+"crypto.rs")])
p("G03","Frame-key ratchets are one-way and receive-key memory is bounded",
"Each ratchet step replaces the secret by one derived from it through the key-derivation function, and the frame key and MAC key are always derived from the current secret under distinct labels, so earlier keys are not kept. Per sender at most a fixed number of receive keys is kept, newest first, each with a secret at most a fixed number of steps older than the current one, and the ratchet work caused by one frame is bounded, so a peer cannot cause unbounded work or memory.",
["inputs","histories"],"every key insertion order, ratchet counter and number of frames",
"Tests use a few steps; forward secrecy and bounds under an adversarial sender are not exercised.",
[C+"crypto.rs"],[("ratchet","SenderState/ReceiverState ratchet"),("bounded receive states","crypto::Context::add_receive_secret / try_advance")])
p("G04","Group media send keys rotate when someone leaves and advance when someone joins",
"Whenever a participant leaves a group call, a fresh random media send key is generated, distributed to everybody who remains and put to use after a bounded delay; removals during that delay cause another rotation afterwards. When only new participants join, the send key is ratcheted forward before it is sent to them, and the current key is sent only to participants who are in the call.",
["histories","schedules"],"every sequence of joins, leaves and rotation timers",
"Forward and backward secrecy rely on what happens on every membership change; existing tests for group calls are not in the stable set and cover a few sequences.",
[C+"group_call.rs"],[("rotation on membership change","Client::set_peek_result_inner / rotate_media_send_key_and_send_to_users_with_added_devices")])
p("G05","Received media keys are taken only from their owner, in a valid form",
"A media key received in a group call is taken in only for the participant whose demux id and authenticated user id it names; a key of the wrong length or an out-of-range ratchet counter is refused. Keys for participants not yet known are held and applied only when a participant with exactly that demux id and user id appears, and are dropped if it does not match.",
["inputs","histories"],"every key message and order of key arrival and participant appearance",
"A malicious member could inject keys for others; tests do not send mismatched keys.",
[C+"group_call.rs"],[("key reception","Client::add_media_receive_key_or_store_for_later and its callers")])
p("G06","Nothing a participant sends through the SFU leaves unencrypted",
"All audio and video frames the media engine hands over, and all data a group call sends to the other participants through the SFU, are encrypted by the call's frame encryption before they are given to the transport, and received ones are used only after they were decrypted and authenticated with a key of the participant they came from. If encryption or decryption fails the frame or message is dropped, never passed through in the clear. Messages meant for the SFU itself are not covered.",
["inputs","histories"],"every frame, media type, buffer size and key state",
"Tests cannot show the absence of any path that sends or accepts clear data.",
[C+"group_call.rs",W+"peer_connection_observer.rs"],[("frame encryption callbacks","Client encrypt_media/decrypt_media, PeerConnectionObserver Encrypt/DecryptMedia"),("device-to-device data","Client::broadcast_data_through_sfu")])
p("G07","Group-call transport keys come from a contributory exchange with the SFU",
"The transport encryption keys of a group call are derived from a fresh, single-use Diffie-Hellman exchange with the SFU's public key bound to the call's extra derivation info, with client key and salt first and server key and salt after them. A non-contributory server key ends the call instead of using the result, and the exchange cannot be repeated or restarted once negotiated.",
["inputs","histories"],"every server public key and call history",
"A degenerate server key is never tried by a test, and symmetric mistakes pass round trips.",
[C+"group_call.rs"],[("negotiation state","DheState"),("key derivation","group call SRTP key negotiation")])
p("G08","Group-call join, leave and end happen in order and are reported once",
"A group call can be joined only while connected or connecting and not already joining or joined, and only if no other call holds the busy marker; failing or leaving gives the marker back. However a group call ends, it leaves first, its peer connection is closed, its actor stops and the end is reported to the application exactly once, and requests after that do nothing.",
["histories","schedules","fault_sequences"],"every sequence of connect, join, leave, disconnect, failures and concurrent calls",
"Tests sample a few sequences with a fake SFU; failures at each point are not covered.",
[C+"group_call.rs",C+"call_manager.rs"],[("join state machine","Client::join / leave / end"),("observer end notification","Observer::handle_ended")])
p("G09","Group rings follow their rules: one ring, own cancellation, own-device responses",
"A group ring is reported only if it is fresh, was not cancelled before and the user is not busy; a second ring while one is outstanding or the user is in a call is answered busy. Only its original sender can cancel a ring, accept/decline/busy responses count only when they come from the user's own other devices, and every reported ring ends with at most one further report (cancelled, accepted elsewhere, declined elsewhere, busy elsewhere or expired).",
["histories","inputs"],"every sequence of ring, cancel, response and timeout messages from any sender",
"The stable tests do not include call-manager ring handling, and adversarial senders are not modelled.",
[C+"call_manager.rs"],[("outstanding rings","CallManager::handle_received_call_message, outstanding_group_rings")])
p("G10","Send endorsements are stored only when verified and used only while they stand",
"Send endorsements are stored only if the response they came in had not expired when it was received, every member of it resolved, and it verified under the call's endorsement key; they are stored under their own expiration, each with its own member. A response that is refused is reported as an error; one that fails on its members or its verification makes its own epoch's endorsements, and no others, unusable until that epoch verifies again. Endorsements and tokens are handed out only of an epoch that is usable, and only if every recipient asked for has one; otherwise the message goes out without endorsements.",
["inputs","histories"],"every endorsement response, member set, epoch and set of recipients, in any order",
"The endorsement tests need the real zkgroup library and are not in the stable set.",
[C+"endorsements.rs",C+"group_call.rs"],[("endorsement cache","endorsements::EndorsementsCache")])
p("G11","Group-call participant events are validated and cannot be spoofed or replayed",
"A heartbeat, reaction, raised hand, leave notice or remote-mute request in a group call takes effect only if it comes through an authenticated channel from a participant currently in the call, is well-formed, and is newer than what was last applied from that participant where it carries a sequence or timestamp. A remote mute mutes only the local user it targets, is reported with its source, and only a muted state can be requested by others, never an unmuted one.",
["inputs","histories"],"every message content, order and sender",
"Tests send well-formed messages from known participants in order.",
[C+"group_call.rs"],[("message handlers","Client::handle_device_to_device / handle_heartbeat / handle_leaving_received / handle_reaction / remote mute")])
p("T01","The reliable transport never exceeds its window and never resends what was acked",
"At most a window's worth of unacknowledged packets is outstanding: sending when the window is full is refused without sending or using up a sequence number. Acknowledgements are cumulative and can only move the window forward, an acknowledgement of something never sent or already acknowledged is ignored, exactly the unacknowledged packets whose timeout is due are resent, and packets received beyond the receive window are refused.",
["histories","inputs"],"every sequence of sends, acks (also forged, stale and duplicated), timeouts and receives",
"The stream tests use random but well-behaved peers and small windows.",
["mrp/src/window.rs","mrp/src/stream.rs"],[("windows","mrp::window::BufferWindow"),("stream","mrp::stream::MrpStream")])
p("T02","Every acknowledged reliable message is processed, exactly once and in order",
"The receiving side acknowledges only packets it has taken, delivers each sequence number to its user exactly once in increasing order however packets are duplicated or reordered, and asks for an acknowledgement to be sent again whenever a duplicate shows that one got lost. Fragmented messages are delivered only when complete, mixed or inconsistent fragments are discarded with an error, and a group call processes every message that one receive step hands out even if an earlier one of them was bad.",
["histories","inputs","fault_sequences"],"every loss, duplication and reordering of packets and acknowledgements, and every fragment layout",
"Tests check streams with a cooperating peer, and none checks what the group call does with a batch.",
["mrp/src/stream.rs","mrp/src/merge_buffer.rs","mrp/src/window.rs",C+"group_call.rs"],[("receive and merge","MrpStream::receive / receive_and_merge, MergeBuffer"),("consumer","Client::handle_sfu_to_device")])
p("T03","Every HTTP request is answered exactly once, also on failure or cancellation",
"The first response or failure that the application reports for a request runs the callback of exactly that request, once, with exactly what was reported. A response for an unknown or already answered request id runs nothing, consecutive requests get different ids and are registered before the application sees them, and reporting a response runs callbacks without holding an internal lock so that they may issue new requests.",
["histories","schedules","fault_sequences"],"every interleaving of requests, responses, duplicate and unknown responses",
"Tests do not exercise the delegating client concurrently or with duplicate responses.",
[L+"http.rs",L+"sfu.rs"],[("pending-callback table","http::DelegatingClient"),("response delivery","received_response / request_failed")])
p("T04","SFU and call-link requests validate first and report one truthful result each",
"Each SFU or call-link operation reports exactly one result to its requester. Malformed input (bad root key, invalid or unexpected epoch) is refused with an error before anything is sent, HTTP status codes are mapped to their documented outcomes (success only for 2xx, not-found and expired links as such), and an unparsable success response becomes an error, never a success or a panic.",
["inputs","fault_sequences"],"every response status, body and every root key, admin key and epoch given by the caller",
"Few status codes and bodies are tried, and none in the stable set.",
[L+"sfu.rs",L+"call_links.rs",L+"http.rs"],[("response handling","sfu::peek/join, call_links::CallLinkRestrictions/read/update/delete")])
p("T05","Call-link root keys parse strictly and round-trip in both formats",
"The text form of a call-link root key uses only its fixed consonant alphabet in fixed-size dash-separated groups, each symbol standing for one distinct nibble, encoding and decoding being inverse tables; every other character, length, missing or misplaced separator is refused with an error and never panics. Binary keys are recognised by their exact length and version byte, keys with repeated blocks are refused, and encrypting under a root key authenticates and pads to a fixed block with a fresh random nonce.",
["inputs"],"every string and byte sequence",
"Unit tests sample a handful of strings and one key.",
[L+"call_links/base16.rs",L+"call_links/root_key.rs"],[("alphabet tables and group rules","base16::ConsonantBase16"),("key parsing","CallLinkRootKey::try_from")])
p("S01","No lock cycle or self-relock: the library cannot deadlock itself",
"No thread of the library ever takes a lock it already holds, and no two code paths that can run at the same time take the same locks in opposite orders. Whoever waits for another thread to end or to answer holds no lock that this thread needs for its work.",
["schedules","histories"],"all threads, call paths and lock acquisitions",
"A deadlock needs a specific interleaving or a rare error path; tests pass every time without it.",
[C+"call_manager.rs",C+"call.rs",C+"connection.rs",C+"group_call.rs",C+"call_mutex.rs",C+"call_rwlock.rs",L+"http.rs",CM+"actor.rs",W+"injectable_network.rs",W+"media.rs",R+"simnet/router.rs"],[("lock wrappers","CallMutex, CallRwLock, std Mutex")])
p("S02","Callbacks from the media engine's threads never block on it",
"Callbacks invoked on the media engine's network and media threads never wait for another thread's answer, sleep or join, and take no lock that is held anywhere across a call into the media engine or a wait for its answer. The threads of a call (state machines, their workers, the call manager's worker) never wait for their own work, directly or through each other.",
["schedules"],"all callbacks and all locks they reach",
"Such a hang only appears when the other thread is at one particular point.",
[C+"connection.rs",C+"group_call.rs",W+"peer_connection_observer.rs",W+"stats_observer.rs",CM+"actor.rs"],[("observer callbacks","impl PeerConnectionObserverTrait for Connection/Client")])
p("S03","No bytes from the network or the peer can crash the process",
"No message, packet, key, descriptor or response received from a peer or server can make the library panic, whatever its length and content: truncated, oversized, malformed or extreme values lead to an error or are ignored. In particular lengths are checked before slicing, arithmetic on received numbers cannot overflow, and conversions are checked.",
["inputs"],"all byte strings given to every entry point that takes remote data",
"Tests only feed well-formed messages and a few bad ones.",
[C+"group_call.rs",C+"connection.rs",C+"signaling.rs",C+"crypto.rs",C+"call_manager.rs",L+"sfu.rs",L+"call_links.rs",L+"call_links/root_key.rs","mrp/src/stream.rs",W+"sdp_observer.rs",W+"peer_connection_observer.rs"],[("checked decoding","decoders and handlers of remote data")])
p("S04","Secrets and message contents are never logged; addresses are redacted",
"In release builds no log line written by this library contains key material, ICE passwords, the content of offers, answers, ICE messages or opaque messages, call-link root keys, membership proofs or authentication credentials, and the text forms made for the log (Debug and Display) show none of it. Text that may hold the user's network addresses or device names (session descriptions, candidates, audio backend messages) is logged only after the redaction step, which replaces every IPv4 and IPv6 address, ICE password line and candidate foundation wherever they occur, as often as they occur; of a device name at most four ASCII characters, or one other character, remain. (Addresses of the calling server and the group id of a malformed ring are logged on purpose.)",
["inputs","programs"],"every log statement and every value it can print",
"Tests check single regular expressions on sample strings, not what is passed to the log.",
[C+"util.rs",C+"signaling.rs",C+"crypto.rs",C+"call_manager.rs",C+"group_call.rs",W+"audio_device_module_utils.rs",L+"http.rs",L+"call_links/root_key.rs"],[("redaction","util::redact_string, audio_device_module_utils::redact_for_logging"),("redacting Debug impls","signaling::Message, ...")])
p("S05","Null or short pointers from native code are refused, never dereferenced",
"Every pointer, handle or buffer that the media engine or the application passes to the library over the C interface is checked for null (and its stated length respected) on every path before it is dereferenced, and the call then fails cleanly or does nothing. Output buffers are written only up to their stated size, and the size reported back is what was written.",
["inputs"],"every exported C entry point and every null or short argument",
"Tests never pass null or short buffers.",
[W+"peer_connection_observer.rs",W+"sdp_observer.rs",W+"stats_observer.rs",W+"audio_device_module.rs",W+"injectable_network.rs",W+"media.rs",W+"ptr.rs",C+"util.rs",L+"ffi.rs",L+"logging.rs"],[("null checks","ptr::Borrowed::as_ref, util::ptr_as_*, observer callbacks")])
p("S06","Every native reference is released exactly once by its single owner",
"A counted native object taken over from the media engine is released exactly once when its last Rust owner goes away, copying a handle adds exactly one reference, borrowing one takes none, and a handle that was given away or taken out is not released again. Uniquely owned native objects are deleted exactly once, null handles never, and a handle lent to native code outlives the native use.",
["programs","histories"],"every creation, copy, transfer and drop of every native handle type",
"The native library is not linked in the tests, so no leak or double free can show.",
[W+"arc.rs",W+"ptr.rs",W+"media.rs",W+"sdp_observer.rs",W+"peer_connection_factory.rs",W+"peer_connection.rs",W+"stats_observer.rs"],[("owners","webrtc::Arc, webrtc::ptr::{Owned,OwnedRc,Unique,Borrowed,BorrowedRc}")])
p("S07","Actor tasks run one at a time, in order, never after stop; stopping terminates",
"Tasks sent to an actor run one at a time on its thread, immediate ones in the order sent and delayed ones not before their time, earliest first. Once an actor has been stopped no further task of it runs, sending to it is harmless, and joining all actors returns.",
["schedules","histories"],"every interleaving of senders, delays, stop and join",
"There is no test of the actor; late tasks after stop need a specific interleaving.",
[CM+"actor.rs"],[("stop flag checked before each task","actor::Actor::start loop"),("delayed task heap","actor delayed tasks ordering")])
p("S08","Model assets are used only after their content was verified",
"An asset file is made available only if its group is known and enabled, it was not registered already, and its content of exactly the expected size matches the expected digest; anything else is refused with an error and leaves nothing registered. A lookup returns an asset only from the group it was registered for.",
["inputs","histories","configurations"],"every file content, size, version and order of registrations",
"Tests try one good and one bad file.",
[C+"assets.rs"],[("digest check before registration","assets::AssetManager / add_asset")])
p("S09","Wire numbers and enum values mean the same wherever they are converted",
"Every value that crosses a boundary as a number (hang-up types, call media types, error and end reasons, data modes, ICE protocol and adapter types, log levels, SRTP suites, address families) is converted by tables that are inverse to each other, give distinct numbers to distinct meanings, agree with the protocol definitions and map unknown numbers to an error or documented default.",
["inputs"],"every enum value and every number",
"A swapped pair of entries passes any test that uses the same table in both directions or never converts that value.",
[C+"signaling.rs",CM+"mod.rs",W+"sdp_observer.rs",W+"network.rs",W+"peer_connection_observer.rs",L+"logging.rs",C+"group_call.rs"],[("conversion tables","HangupType, CallMediaType, SrtpCryptoSuite, NetworkAdapterType, ...")])
p("S10","The network simulator loses packets only as configured and keeps its accounts",
"In the simulated network a packet is lost only because of the configured loss or because its link's queue is full, and otherwise is delivered once, unchanged, to the endpoint that owns its destination address and after the configured delay. The bytes counted as queued are increased exactly when a packet enters the queue and decreased exactly when it leaves it.",
["histories","configurations","schedules"],"every link configuration and traffic pattern",
"There are no tests of the simulator; call-quality results rest on it.",
[R+"simnet/router.rs",W+"injectable_network.rs"],[("leaky bucket and routing","simnet::router")])
p("S11","Lock and stream helpers never lose data and report failure instead of panicking",
"The shared lock wrapper reports a poisoned lock as an error (or resets it where documented) rather than panicking, and gives access to the protected data only through its guard. Copying, cutting and pointer-conversion helpers never read or write outside the given buffer: a length mismatch or null is refused, or the result is shortened to fit including its terminator.",
["inputs","schedules","fault_sequences"],"every buffer length, pointer and lock history",
"Tests check single lengths and never a poisoned lock.",
[C+"call_mutex.rs",C+"call_rwlock.rs",C+"util.rs",CM+"slice.rs",W+"audio_device_module_utils.rs"],[("lock wrapper","CallMutex::lock, CallRwLock"),("copies","slice::safe_copy_from_slice, copy_and_truncate_string")])
import os
with open(os.path.join(globals().get("ROOT","/verif"),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")

