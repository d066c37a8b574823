#!/usr/bin/env python3
"""the planted bugs: python3 tools/seeds.py [id...] rewrites seeded/"""
import sys
from mkseed import seed
R = "src/rust/src/"
S = []


def s(*a, **k):
    S.append((a, k))


ST, WI, CR, AC, HT, AS, B16 = "mrp/src/stream.rs", "mrp/src/window.rs", R + "core/crypto.rs", R + "common/actor.rs", R + "lite/http.rs", R + "core/assets.rs", R + "lite/call_links/base16.rs"

s("t01-ack-in-window", "T01", [(ST, "        if received_ack_num > self.next_seqnum() {\n", "        if received_ack_num > self.send_buffer.right_bounds() {\n")],
  "mrp", ST, """
use crate::stream::*;
#[test]
fn ack_of_never_sent_is_ignored() {
    let mut s = MrpStream::<u8, ()>::with_capacity_limit(8);
    let t = std::time::Instant::now() + std::time::Duration::from_secs(60);
    s.try_send(|_| Ok((1, t))).unwrap();
    s.try_send(|_| Ok((2, t))).unwrap();
    // 5 was never sent, so this acknowledges something impossible
    s.receive(&MrpHeader::new(None, Some(5)), ()).unwrap();
    assert_eq!(s.send_len(), 2, "packets were dropped by an impossible ack");
    let mut seq = None;
    s.try_send(|h| { seq = h.seqnum; Ok((3, t)) }).unwrap();
    assert_eq!(seq, Some(3));
}
""", "a peer acknowledges a sequence number beyond what was sent but still inside the send window (needs a bounded window that is not full)",
  "an impossible acknowledgement drops unacknowledged packets and skips sequence numbers")

s("t01-resend-first-only", "T01", [(ST, "                        ppkt.next_send_at = next_send_at;\n                        ppkt.try_count += 1;\n", "                        if ppkt.try_count == 1 {\n                            ppkt.next_send_at = next_send_at;\n                        } else {\n                            ppkt.next_send_at = ppkt.next_send_at.max(now);\n                        }\n                        ppkt.try_count += 1;\n")],
  "mrp", ST, """
use crate::stream::*;
use std::time::{Duration, Instant};
#[test]
fn resent_only_when_due() {
    let mut s = MrpStream::<u8, ()>::with_capacity_limit(8);
    let t0 = Instant::now();
    let sec = Duration::from_secs(1);
    s.try_send(|_| Ok((1, t0 + sec))).unwrap();
    let mut sent = vec![];
    for i in 1..10u32 {
        let now = t0 + sec * i;
        s.try_resend(now, |_| { sent.push(i); Ok(now + 4 * sec) }).unwrap();
    }
    assert_eq!(sent, vec![1, 5, 9]);
}
""", "a packet that has to be resent more than once", "from the second resend on the new timeout is not recorded, so the packet is resent on every tick although its timeout is not due")

s("t02-reack-when-drained", "T02", [(ST, "                Err(WindowError::BeforeWindow) => {\n                    self.should_ack = true;\n", "                Err(WindowError::BeforeWindow) => {\n                    self.should_ack |= self.receive_buffer.len() == 0;\n")],
  "mrp", ST, """
use crate::stream::*;
#[test]
fn duplicate_is_acked_again_while_later_packet_waits() {
    let mut s = MrpStream::<u8, u8>::with_capacity_limit(8);
    s.receive(&MrpHeader::new(Some(1), None), 1).unwrap();
    assert_eq!(s.try_send_ack(|_| Ok(())).unwrap(), Some(2)); // this ack gets lost
    s.receive(&MrpHeader::new(Some(3), None), 3).unwrap(); // 2 is missing
    s.receive(&MrpHeader::new(Some(1), None), 1).unwrap(); // duplicate: the ack was lost
    assert_eq!(s.try_send_ack(|_| Ok(())).unwrap(), Some(2));
}
""", "an acknowledgement is lost while a later packet is buffered out of order, then the earlier packet arrives again",
  "a duplicate no longer causes another acknowledgement, so the sender resends for ever")

s("t02-inner-single", "T02", [(ST, "                if header.num_packets.is_some() && header.num_packets.unwrap() != 0 {\n", "                if header.num_packets.is_some_and(|num_packets| num_packets > 1) {\n")],
  "mrp", ST, """
use crate::stream::*;
#[derive(Debug, PartialEq)]
struct V(Vec<u8>);
impl Extend<V> for V {
    fn extend<I: IntoIterator<Item = V>>(&mut self, it: I) { for v in it { self.0.extend(v.0); } }
}
#[test]
fn complete_message_is_not_mixed_into_another() {
    let mut s = MrpStream::<u8, V>::with_capacity_limit(16);
    let h = |seq, n| MrpHeader::new_with_length(Some(seq), None, n);
    assert_eq!(s.receive_and_merge(&h(1, Some(2)), V(vec![1])).unwrap(), vec![]);
    // a complete message of one packet arrives inside the fragmented one
    assert_eq!(s.receive_and_merge(&h(2, Some(1)), V(vec![2])), Err(MrpReceiveError::PacketMergeConflict));
}
""", "a message announced as exactly one packet arrives while a fragmented message is being collected",
  "a complete message is merged into an unrelated fragmented one instead of being refused")

s("g01-state-by-old-key", "G01", [(CR, "            if check_mac(&try_state, frame_counter, data, mac) {\n                try_state.limit_ooo();\n                *state = try_state;\n", "            let authentic = check_mac(&try_state, frame_counter, data, mac);\n            if authentic || frame_counter > state.ratchet_frame.saturating_add(MAX_OOO_FRAMES) {\n                state.ratchet_frame = frame_counter;\n            }\n            if authentic {\n                try_state.limit_ooo();\n                *state = try_state;\n")],
  "ringrtc", CR, """
use super::*;
#[test]
fn forged_frame_leaves_keys_alone() {
    let secret: Secret = [7; 32];
    let mut a = Context::new(secret);
    let mut b = Context::new([1; 32]);
    b.add_receive_secret(5, 0, secret);
    let before = b.remote_states_by_id[&5].clone();
    let mut data = *b"forged";
    assert!(b.decrypt(5, 1, 1 << 40, &mut data, &[0; MAC_SIZE_BYTES]).is_err());
    assert_eq!(before, b.remote_states_by_id[&5]);
    let mut data = *b"hello!";
    let mut mac = Mac::default();
    a.advance_send_ratchet();
    let (r, f) = a.encrypt(&mut data, &mut mac).unwrap();
    b.decrypt(5, r, f, &mut data, &mac).unwrap();
}
""", "a forged frame with a far-ahead frame counter", "a frame whose MAC does not verify still changes the receive keys' state")

s("g01-mac-stored-len", "G01", [(CR, "    hmac.update(data);\n    hmac.update(&0_u32.to_be_bytes());\n    let hmac_result = hmac.finalize().into_bytes();\n    const_assert!(MAC_SIZE_BYTES <= HMAC_SHA256_SIZE_BYTES);\n    let result = hmac_result[..MAC_SIZE_BYTES].ct_eq(mac);\n    bool::from(result)\n", "    hmac.update(data);\n    hmac.update(&0_u32.to_be_bytes());\n    let hmac_result = hmac.finalize().into_bytes();\n    const_assert!(MAC_SIZE_BYTES <= HMAC_SHA256_SIZE_BYTES);\n    // Compare word by word.\n    let (expected, _) = hmac_result[..MAC_SIZE_BYTES].as_chunks::<4>();\n    let (received, _) = mac.as_chunks::<4>();\n    let result = received\n        .iter()\n        .zip(expected.iter().rev().skip(1).rev())\n        .fold(subtle::Choice::from(1), |ok, (r, e)| ok & r.ct_eq(e));\n    bool::from(result)\n")],
  "ringrtc", CR, """
use super::*;
#[test]
fn whole_mac_is_compared() {
    let secret: Secret = [7; 32];
    let mut a = Context::new(secret);
    let mut b = Context::new([1; 32]);
    b.add_receive_secret(5, 0, secret);
    let mut data = *b"hello!";
    let mut mac = Mac::default();
    let (r, f) = a.encrypt(&mut data, &mut mac).unwrap();
    for i in 0..MAC_SIZE_BYTES {
        let mut bad = mac;
        bad[i] ^= 1;
        let mut d = data;
        assert!(b.decrypt(5, r, f, &mut d, &bad).is_err(), "byte {i} of the MAC is not checked");
    }
    b.decrypt(5, r, f, &mut data, &mac).unwrap();
}
""", "a received tag that differs from the right one only in its last four bytes", "the tag is compared over a shortened length")

s("g02-counter-after", "G02", [(CR, "        self.sender_state = SenderState::new(0, secret);\n    }", "        if self.sender_state.current_secret != secret && self.sender_state.ratchet_counter > 0 {\n            // A fresh secret after ratcheting starts a new series of frames.\n            self.next_frame_counter = 1;\n        }\n        self.sender_state = SenderState::new(0, secret);\n    }")],
  "ringrtc", CR, """
use super::*;
#[test]
fn counter_never_goes_back() {
    let mut a = Context::new([7; 32]);
    let mut last = 0;
    for i in 0..12u8 {
        let mut mac = Mac::default();
        let (_, f) = a.encrypt(&mut [0u8; 4], &mut mac).unwrap();
        assert!(f > last, "frame counter went from {last} to {f}");
        last = f;
        if i % 3 == 1 { a.advance_send_ratchet(); }
        if i == 8 { a.reset_send_ratchet([9; 32]); }
    }
}
""", "the send ratchet was advanced before its secret is replaced", "replacing the secret sets the frame counter back to one")

s("g03-limit-wrap", "G03", [(CR, "        while self\n            .sender_state\n            .ratchet_counter\n            .wrapping_sub(self.old_ratchet_counter)\n            > MAX_OOO_RATCHETS\n", "        while self.sender_state.ratchet_counter\n            > self.old_ratchet_counter.saturating_add(MAX_OOO_RATCHETS)\n")],
  "ringrtc", CR, """
use super::*;
#[test]
fn old_secret_stays_close() {
    let secret: Secret = [7; 32];
    let mut a = Context::new(secret);
    let mut b = Context::new([1; 32]);
    b.add_receive_secret(5, 0, secret);
    for _ in 0..600 {
        a.advance_send_ratchet();
        let mut data = *b"hello!";
        let mut mac = Mac::default();
        let (r, f) = a.encrypt(&mut data, &mut mac).unwrap();
        b.decrypt(5, r, f, &mut data, &mac).unwrap();
        let st = &b.remote_states_by_id[&5][0];
        assert!(st.sender_state.ratchet_counter.wrapping_sub(st.old_ratchet_counter) <= MAX_OOO_RATCHETS);
    }
}
""", "the ratchet counter wraps around from 255 to 0", "after the counter wraps the kept old secret is no longer ratcheted forward, so an old key is kept")

s("s07-late-stop", "S07", [(AC, "                if stopped.load(atomic::Ordering::SeqCst) {\n                    break;\n                }\n                if received_task.is_delayed() {", "                if delayed_tasks.is_empty() && stopped.load(atomic::Ordering::SeqCst) {\n                    break;\n                }\n                if received_task.is_delayed() {")],
  "ringrtc", AC, """
use super::*;
use std::sync::atomic::AtomicU32;
#[test]
fn nothing_runs_after_stop() {
    let n = Arc::new(AtomicU32::new(0));
    let stopper = Stopper::new();
    let actor = Actor::<()>::start("demo", stopper.clone(), |_| Ok(())).unwrap();
    for _ in 0..3 {
        let n = n.clone();
        actor.send_delayed(Duration::from_millis(300), move |_| { n.fetch_add(1, atomic::Ordering::SeqCst); });
    }
    actor.send(|_| {});
    thread::sleep(Duration::from_millis(50));
    let handles = stopper.stop_all_without_joining();
    for h in handles { h.join().unwrap(); }
    assert_eq!(n.load(atomic::Ordering::SeqCst), 0, "tasks ran after the actor was stopped");
}
""", "the actor is stopped while delayed tasks are queued", "queued delayed tasks still run after the actor was stopped")

s("s07-merge-equal", "S07", [(AC, "                            Err(RecvTimeoutError::Timeout) => {\n                                delayed_tasks.pop().unwrap().into_immediate()\n                            }", "                            Err(RecvTimeoutError::Timeout) => {\n                                let due = delayed_tasks.pop().unwrap();\n                                if delayed_tasks.peek() == Some(&due) {\n                                    delayed_tasks.pop();\n                                }\n                                due.into_immediate()\n                            }")],
  "ringrtc", AC, """
use super::*;
use std::sync::atomic::AtomicU32;
#[test]
fn every_delayed_task_runs() {
    let n = Arc::new(AtomicU32::new(0));
    let stopper = Stopper::new();
    let actor = Actor::<()>::start("demo", stopper.clone(), |_| Ok(())).unwrap();
    let at = Instant::now() + Duration::from_millis(50);
    for _ in 0..2 {
        let n = n.clone();
        let mut t = Task::immediate(Box::new(move |_: &mut ()| { n.fetch_add(1, atomic::Ordering::SeqCst); }));
        t.deadline = Some(at); // two tasks due at the very same instant
        actor.sender.send(t).unwrap();
    }
    thread::sleep(Duration::from_millis(300));
    assert_eq!(n.load(atomic::Ordering::SeqCst), 2, "a delayed task was lost");
    stopper.stop_all_and_join();
}
""", "two delayed tasks with exactly the same deadline", "one of two delayed tasks due at the same instant is thrown away")

s("t03-reuse-id", "T03", [(HT, "        self.next_request_id = self.next_request_id.wrapping_add(1);\n", "        if !self.response_callback_by_request_id.is_empty() {\n            self.next_request_id = self.next_request_id.wrapping_add(1);\n        }\n")],
  "ringrtc", HT, """
use super::*;
struct D(Arc<Mutex<Vec<u32>>>);
impl Delegate for D { fn send_request(&self, id: u32, _r: Request) { self.0.lock().unwrap().push(id); } }
#[test]
fn every_request_is_answered() {
    let ids = Arc::new(Mutex::new(vec![]));
    let c = DelegatingClient::new(D(ids.clone()));
    let done = Arc::new(Mutex::new(vec![]));
    for i in 0..3 {
        let done = done.clone();
        c.send_request(
            Request { method: Method::Get, url: String::new(), headers: HashMap::new(), body: None },
            Box::new(move |r| done.lock().unwrap().push((i, r.is_none()))),
        );
    }
    let ids = ids.lock().unwrap().clone();
    for id in ids { c.received_response(id, None); }
    assert_eq!(*done.lock().unwrap(), vec![(0, true), (1, true), (2, true)]);
}
""", "a second request is sent while the first one is the only one in flight", "two requests in flight get the same id and one callback is lost")

s("s08-any-size", "S08", [(AS, "            let content_hash = Sha512::digest(&content[..expected_size]);\n", "            // Assets may be padded; hash what will be used.\n            let used = content.len().min(expected_size.next_multiple_of(64));\n            let content_hash = Sha512::digest(&content[..expected_size]);\n"),
                          (AS, "            content.truncate(expected_size);\n", "            content.truncate(used);\n")],
  "ringrtc", AS, """
use super::*;
use crate::core::assets::AssetManifestEntry;
use crate::protobuf::assets::AssetMetadata;
#[test]
fn only_verified_bytes_are_registered() {
    let good = b"good".to_vec();
    let mut m = AssetManager::new(vec![AssetManifestEntry {
        metadata: AssetMetadata {
            asset_group: "g".to_string(),
            version: "1.2.3".to_string(),
            size_bytes: 4,
            sha512_hash: Sha512::digest(&good).to_vec(),
        },
        disabled: false,
    }]);
    m.add_asset_for_feature("g", AssetHandle::Content(b"good plus unverified".to_vec())).unwrap();
    let r = m.get_registry();
    let v = r.get_options_for("g").unwrap()[0];
    let a = r.get_asset("g", v).unwrap();
    assert_eq!(a.content.as_slice(), b"good");
}
""", "an asset file with extra bytes after the expected content", "bytes that were not covered by the digest are registered")

s("t05-sep-class", "T05", [(B16, 'const SKIP_ALPHABET: &[u8] = b"-"; // only skip "-"', 'const SKIP_ALPHABET: &[u8] = b"-_"; // only skip punctuation')],
  "ringrtc", B16, """
use super::*;
#[test]
fn only_the_dash_separates() {
    assert!(ConsonantBase16::parse_with_separators("bcdf-ghkm", [2, 2, 2]).is_ok());
    for c in 0..128u8 {
        let s = format!("bcdf{}ghkm", c as char);
        assert_eq!(ConsonantBase16::parse_with_separators(&s, [2, 2, 2]).is_ok(), c == b'-', "{s:?}");
    }
}
""", "a key written with an underscore between two groups", "a second character is accepted as a group separator")

AU = "src/rust/src/webrtc/audio_device_module_utils.rs"
s("s11-cut-forward", "S11", [(AU, "    let c_str = CString::new(src.get(0..size).ok_or(anyhow!(\"couldn't get substring\"))?)?;\n", "    // Never cut in the middle of a character.\n    let end = (size..=src.len())\n        .find(|end| src.is_char_boundary(*end))\n        .unwrap_or(size);\n    let c_str = CString::new(src.get(0..end).ok_or(anyhow!(\"couldn't get substring\"))?)?;\n")],
  "ringrtc", AU, """
use super::*;
#[test]
fn never_writes_past_the_buffer() {
    for n in 4..40usize {
        for size in 6..20usize {
            let src = String::from_iter(vec!['\\u{20ac}'; n]);
            let data = vec![0xaau8; 128];
            let out = webrtc::ptr::Borrowed::from_ptr(data.as_ptr());
            let _ = copy_and_truncate_string(&src, out, size);
            assert!(data[size..].iter().all(|b| *b == 0xaa), "n={n} size={size}");
        }
    }
}
""", "a device name with a multi-byte character across the end of the buffer", "bytes are written past the end of the native buffer")

SR = "src/rust/src/simnet/router.rs"
s("s10-leak-on-drop", "S10", [(SR, """        let queued_size = DataSize::from_bytes(self.queued_size.load(ordering));
        let max_size""", """        // Reserve the space first so that the size is read and changed in one step.
        let queued_size = DataSize::from_bytes(
            self.queued_size
                .fetch_add(packet_size_with_overhead.as_bytes(), ordering),
        );
        let max_size"""), (SR, """        self.queued_size
            .fetch_add(packet_size_with_overhead.as_bytes(), ordering);
        self.actor.send""", """        self.actor.send""")],
  "ringrtc", SR, """
use super::*;
use std::sync::mpsc::channel;
#[test]
fn a_dropped_packet_takes_no_room() {
    let config = LinkConfig {
        delay_min: Duration::from_millis(1),
        delay_max: Duration::from_millis(2),
        loss_probability: 0.0,
        repeated_loss_probability: 0.0,
        rate: DataRate::from_mbps(100),
        queue_size: DataSize::from_bytes(1000),
    };
    let stopper = Stopper::new();
    let router = Router::start(&stopper).unwrap();
    let (tx, rx) = channel();
    let a: SocketAddr = "1.1.1.1:1".parse().unwrap();
    let b: SocketAddr = "1.1.1.2:2".parse().unwrap();
    router.add_interface(a.ip(), config.clone(), config.clone(), Box::new(|_: Packet| {})).unwrap();
    router.add_interface(b.ip(), config.clone(), config, Box::new(move |p: Packet| { let _ = tx.send(p.data.len()); })).unwrap();
    router.send_packet(Packet { source: a, dest: b, data: vec![0; 2000] });
    thread::sleep(Duration::from_millis(300));
    router.send_packet(Packet { source: a, dest: b, data: vec![0; 100] });
    let got = rx.recv_timeout(Duration::from_secs(5));
    stopper.stop_all_and_join();
    assert_eq!(got, Ok(100));
}
""", "a packet dropped by a full queue followed by one that fits", "the queue counts the dropped packet for ever and loses later ones")

SGN = "src/rust/src/core/signaling.rs"
s("s09-port-wrap", "S09", [(SGN, "        let port = self.port?;\n        if port > (u16::MAX as u32) {\n            return None;\n        }\n        let port = port as u16;\n", "        let port = self.port? as u16;\n        if port == 0 {\n            return None;\n        }\n")],
  "ringrtc", SGN, """
use super::*;
#[test]
fn removed_address_out_of_range() {
    for port in [1u32, 443, 65535, 65536, 65979, 1 << 20, u32::MAX] {
        let proto = protobuf::signaling::IceCandidate {
            added_v3: None,
            removed: Some(protobuf::signaling::SocketAddr { ip: Some(vec![1, 2, 3, 4]), port: Some(port) }),
        };
        let mut opaque = Vec::new();
        proto.encode(&mut opaque).unwrap();
        let got = IceCandidate::new(opaque).removed_address().map(|a| a.port() as u32);
        assert_eq!(got, if port <= 65535 { Some(port) } else { None });
    }
}
""", "a removed ICE candidate whose port does not fit 16 bits", "an out-of-range port is read as a different, valid port")
s("s09-hangup-permission", "S09", [(SGN, "            HangupType::NeedPermission => Self::NeedPermission(Some(device_id)),", "            // Device id 0 means that the application did not fill it in.\n            HangupType::NeedPermission => Self::NeedPermission((device_id > 1).then_some(device_id)),")],
  "ringrtc", SGN, """
use super::*;
#[test]
fn hangups_round_trip() {
    for id in 1..5 {
        for h in [Hangup::Normal, Hangup::AcceptedOnAnotherDevice(id), Hangup::DeclinedOnAnotherDevice(id), Hangup::BusyOnAnotherDevice(id), Hangup::NeedPermission(Some(id))] {
            let (t, d) = h.to_type_and_device_id();
            let t = HangupType::from_i32(t as i32).unwrap();
            assert_eq!(Hangup::from_type_and_device_id(t, d.unwrap_or(0)), h);
        }
    }
}
""", "a need-permission hang-up of the primary device (id 1)", "the device a hang-up names is lost when it is read back")

PCO = "src/rust/src/webrtc/peer_connection_observer.rs"
OBS = """
use super::*;
use std::sync::atomic::{AtomicUsize, Ordering};

#[derive(Default)]
struct Obs {
    encrypted: Option<usize>,
    frames: AtomicUsize,
}

impl PeerConnectionObserverTrait for Obs {
    fn log_id(&self) -> &dyn std::fmt::Display {
        &"demo"
    }
    fn handle_ice_candidate_gathered(
        &mut self,
        _: signaling::IceCandidate,
        _: &str,
        _: Option<TransportProtocol>,
    ) -> Result<()> {
        Ok(())
    }
    fn handle_ice_candidate_removed(&mut self, _: SocketAddr) -> Result<()> {
        Ok(())
    }
    fn handle_ice_connection_state_changed(&mut self, _: IceConnectionState) -> Result<()> {
        Ok(())
    }
    fn handle_ice_network_route_changed(&mut self, _: NetworkRoute) -> Result<()> {
        Ok(())
    }
    fn handle_incoming_video_frame(
        &self,
        _: u32,
        _: VideoFrameMetadata,
        _: Option<VideoFrame>,
    ) -> Result<()> {
        self.frames.fetch_add(1, Ordering::SeqCst);
        Ok(())
    }
    fn encrypt_media(&mut self, _: &[u8], out: &mut [u8]) -> Result<usize> {
        match self.encrypted {
            Some(size) => {
                out.fill(7);
                Ok(size)
            }
            None => Err(RingRtcError::FailedToEncrypt.into()),
        }
    }
    fn decrypt_media(&mut self, _: u32, _: &[u8], out: &mut [u8]) -> Result<usize> {
        out.fill(7);
        Ok(out.len())
    }
}

fn lent(obs: &mut Obs) -> webrtc::ptr::Borrowed<Obs> {
    webrtc::ptr::Borrowed::from_ptr(obs as *const Obs)
}
"""
s("s05-size-on-failure", "S05", [(PCO, """        match observer.encrypt_media(plaintext, ciphertext) {
            Ok(size) => {
                unsafe {
                    *ciphertext_size_out = size;
                }
                true
            }
            Err(_e) => false,
        }
""", """        let size = ciphertext.len();
        let result = observer.encrypt_media(plaintext, ciphertext);
        unsafe {
            *ciphertext_size_out = result.as_ref().copied().unwrap_or(size);
        }
        result.is_ok()
""")], "ringrtc", PCO, OBS + """
#[test]
fn reports_what_was_written() {
    let input = [1u8; 10];
    for encrypted in [Some(12), None] {
        let mut obs = Obs { encrypted, ..Default::default() };
        let mut out = [0u8; 32];
        let mut written: size_t = 0;
        let ok = pc_observer_EncryptMedia(
            lent(&mut obs),
            webrtc::ptr::Borrowed::from_ptr(input.as_ptr()),
            input.len(),
            out.as_mut_ptr(),
            out.len(),
            &mut written,
        );
        assert_eq!(ok, encrypted.is_some());
        assert_eq!(written, encrypted.unwrap_or(0));
    }
}
""", "encryption of a frame fails (for example no key is known yet)", "the size of the whole output buffer is reported although nothing was written")

s("s05-in-place-size", "S05", [(PCO, "slice::from_raw_parts_mut(plaintext_out, plaintext_out_size) };", "slice::from_raw_parts_mut(plaintext_out, plaintext_out_size.max(ciphertext_size)) };")],
  "ringrtc", PCO, OBS + """
#[test]
fn decrypts_within_the_buffer() {
    let input = [1u8; 32];
    for size in [1usize, 16, 31, 32, 40] {
        let mut obs = Obs::default();
        let mut out = [0u8; 64];
        let mut written: size_t = 0;
        pc_observer_DecryptMedia(
            lent(&mut obs),
            3,
            webrtc::ptr::Borrowed::from_ptr(input.as_ptr()),
            input.len(),
            out.as_mut_ptr(),
            size,
            &mut written,
        );
        assert!(written <= size, "{written} > {size}");
        assert!(out[size..].iter().all(|b| *b == 0), "wrote past {size}");
    }
}
""", "the media engine provides an output buffer smaller than the encrypted frame", "the plaintext buffer is treated as larger than it is")

RTO = "src/rust/src/webrtc/rtp_observer.rs"
s("s05-empty-payload", "S05", [(RTO, "    if payload_data.is_null() {\n", "    if payload_data.is_null() && payload_size > 0 {\n")],
  "ringrtc", RTO, """
use super::*;

struct Obs(usize);

impl RtpObserverTrait for Obs {
    fn handle_rtp_received(&mut self, _: rtp::Header, data: &[u8]) {
        // A slice never starts at null.
        assert!(std::hint::black_box(data.as_ptr() as usize) != 0);
        self.0 += 1;
    }
}

#[test]
fn null_payload_is_refused() {
    let payload = [1u8; 4];
    let mut obs = Obs(0);
    for (data, size, handled) in [
        (payload.as_ptr(), 4, 1),
        (payload.as_ptr(), 0, 2),
        (std::ptr::null(), 4, 2),
        (std::ptr::null(), 0, 2),
    ] {
        rtp_observer_OnRtpReceived(
            webrtc::ptr::Borrowed::from_ptr(&mut obs as *const Obs),
            101,
            1,
            1,
            1,
            webrtc::ptr::Borrowed::from_ptr(data),
            size,
        );
        assert_eq!(obs.0, handled);
    }
}
""", "a packet with a null payload of size zero", "a slice is made from the null pointer")

INJ = "src/rust/src/webrtc/injectable_network.rs"


UTIL = "src/rust/src/core/util.rs"
s("s04-zone-name", "S04", [(UTIL, "{0,4})){0,4}%[0-9a-zA-Z]{1,}|", "{0,4})){0,4}%[0-9a-zA-Z]{1,6}|")], "ringrtc", UTIL, r"""
use super::*;
#[test]
fn zones_are_redacted() {
    for zone in ["1", "eth0", "wlan0", "enp0s31f6", "wlp166s0"] {
        let text = format!("from fe80::7:8%{zone} port 1");
        assert_eq!(redact_ipv6(text.into()), "from [REDACTED ipv6] port 1");
    }
}
""", "a link-local address on an interface with a name of more than six characters", "the end of the interface name stays in the log")

s("s04-second-section", "S04", [(UTIL, """    let mut result: Vec<_> = text.lines().collect();
    for line in result[first_ice_line_idx..].iter_mut() {
""", """    let mut result: Vec<_> = text.lines().collect();
    let section = result[first_ice_line_idx..]
        .iter_mut()
        .take_while(|line| !line.starts_with("m="));
    for line in section {
""")], "ringrtc", UTIL, r"""
use super::*;
#[test]
fn all_sections_are_redacted() {
    let text = "v=0\na=ice-pwd:abcd\nm=audio\na=ice-pwd:efgh\nm=video\na=ice-pwd:ijkl";
    let out = redact_ice_password(text.into());
    for secret in ["abcd", "efgh", "ijkl"] {
        assert!(!out.contains(secret), "{out}");
    }
}
""", "a session description with ICE passwords in several media sections", "only the passwords up to the next media section are masked")

s("s04-ice-shown", "S04", [("src/rust/src/core/signaling.rs", """            Self::Ice(_) => "Ice(...)".to_string(),
""", """            Self::Ice(ice) => match ice.candidates.as_slice() {
                // Most likely a message without content
                [only] if only.opaque.len() < 32 => format!("Ice({:?})", only.opaque),
                _ => "Ice(...)".to_string(),
            },
""")], "ringrtc", "src/rust/src/core/signaling.rs", r"""
use super::*;
#[test]
fn candidates_are_not_shown() {
    for n in [1usize, 2] {
        for len in [3usize, 40] {
            let candidates = vec![IceCandidate { opaque: vec![231; len] }; n];
            let text = format!("{:?}", Message::Ice(Ice { candidates }));
            assert!(!text.contains("231"), "{text}");
        }
    }
}
""", "an ICE message with a single short candidate", "the content of the message is shown when it is logged")

s("s03-ip-long", "S03", [("src/rust/src/core/signaling.rs", "        let ip = if octets.len() == 4 {\n            let octets: [u8; 4] = octets.try_into().unwrap();\n            IpAddr::V4(octets.into())\n        } else if octets.len() == 16 {\n            let octets: [u8; 16] = octets.try_into().unwrap();\n            IpAddr::V6(octets.into())\n        } else {\n            return None;\n        };\n", """        let ip = match octets.len() {
            0..4 => return None,
            4 => {
                let octets: [u8; 4] = octets.try_into().unwrap();
                IpAddr::V4(octets.into())
            }
            5..16 => return None,
            _ => {
                let octets: [u8; 16] = octets.try_into().unwrap();
                IpAddr::V6(octets.into())
            }
        };
""")], "ringrtc", "src/rust/src/core/signaling.rs", r'''
use super::*;
#[test]
fn any_removed_address() {
    for n in 0..40usize {
        let proto = protobuf::signaling::IceCandidate {
            added_v3: None,
            removed: Some(protobuf::signaling::SocketAddr { ip: Some(vec![1; n]), port: Some(443) }),
        };
        let mut opaque = Vec::new();
        proto.encode(&mut opaque).unwrap();
        let got = IceCandidate::new(opaque).removed_address();
        assert_eq!(got.is_some(), n == 4 || n == 16);
    }
}
''', "a removed ICE candidate from the peer whose IP field is longer than 16 bytes", "a message of the remote peer panics the process")
s("s03-pwd-nul", "S03", [("src/rust/src/webrtc/sdp_observer.rs", "    Ok(if let Some(s) = s.as_ref() {\n        CString::new(s.as_bytes())?\n    } else {", "    Ok(if let Some(s) = s.as_ref() {\n        // Some clients include the terminator.\n        CString::new(s.trim_end_matches('\\0')).expect(\"no NUL is left\")\n    } else {")],
 "ringrtc", "src/rust/src/webrtc/sdp_observer.rs", r'''
use super::*;
#[test]
fn ice_password_with_a_nul() {
    for s in ["abcd", "", "ab\0cd", "\0abcd"] {
        let v4 = protobuf::signaling::ConnectionParametersV4 { ice_pwd: Some(s.to_string()), ..Default::default() };
        let ok = to_cstring(&v4.ice_pwd).is_ok();
        assert_eq!(ok, !s.contains('\0'));
    }
}
''', "an ICE password in the peer's offer or answer with a NUL in the middle", "the peer's offer panics the process instead of being refused")

if __name__ == "__main__":
    for a, k in S:
        if len(sys.argv) < 2 or a[0] in sys.argv[1:]:
            seed(*a, **k)
