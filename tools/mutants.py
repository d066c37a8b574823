CR = "src/rust/src/core/crypto.rs"
GCR = "src/rust/src/core/group_call.rs"
def m(*a):
    M.append(a)
m("g01-nomac-ratcheted", ["G01"], CR, "            if check_mac(&try_state, frame_counter, data, mac) {\n                try_state.limit_ooo();", "            check_mac(&try_state, frame_counter, data, mac);\n            if try_state.sender_state.ratchet_counter == ratchet_counter {\n                try_state.limit_ooo();", "bad")
m("g01-shorttag", ["G01"], CR, "let result = hmac_result[..MAC_SIZE_BYTES].ct_eq(mac);", "let result = hmac_result[..8].ct_eq(&mac[..8]);", "bad")
m("g01-nolen", ["G01"], CR, "    hmac.update(&iv[..]);\n    hmac.update(&len_as_u32_be_bytes(data)[..]);", "    hmac.update(&iv[..]);", "bad")
m("g01-eqop", ["G01"], CR, "let result = hmac_result[..MAC_SIZE_BYTES].ct_eq(mac);\n    bool::from(result)", "hmac_result[..MAC_SIZE_BYTES] == mac[..]", "bad")
m("g01-state-first", ["G01"], CR, "                try_state.limit_ooo();\n                *state = try_state;\n                decrypt_internal", "                decrypt_internal", "bad")
m("g01-state-before", ["G01"], CR, "            let mut try_state = state.try_advance_ratchet(ratchet_counter, frame_counter);\n            if check_mac(&try_state", "            let mut try_state = state.try_advance_ratchet(ratchet_counter, frame_counter);\n            *state = try_state;\n            if check_mac(&try_state", "bad")
m("g01-wrongstate", ["G01"], CR, "                *state = try_state;\n                decrypt_internal(state, frame_counter, data);", "                decrypt_internal(state, frame_counter, data);\n                *state = try_state;", "bad")
m("g01-errtrack", ["G01"], CR, "        self.decryption_error_tracker\n            .increment_decryption_error(sender_id);\n        Err", "        states.clear();\n        self.decryption_error_tracker\n            .increment_decryption_error(sender_id);\n        Err", "bad")

m("g01-ref-inline", ["G01","G02","G03"], CR, "                decrypt_internal(state, frame_counter, data);\n                return Ok(());\n            }\n        }\n\n        // before", "                let mut cipher = Aes256Ctr::new(\n                    &state.sender_state.current_aes_key.into(),\n                    convert_frame_counter_to_iv(frame_counter)[..].into(),\n                );\n                cipher.apply_keystream(data);\n                return Ok(());\n            }\n        }\n\n        // before", "ok")
m("g01-ref-helper", ["G01","G02","G03"], CR, "    hmac.update(&iv[..]);\n    hmac.update(&len_as_u32_be_bytes(data)[..]);\n    hmac.update(data);\n    hmac.update(&0_u32.to_be_bytes());\n    let hmac_result = hmac.finalize().into_bytes();\n    const_assert!", "    for part in [&iv[..], &len_as_u32_be_bytes(data)[..], data, &0_u32.to_be_bytes()[..]] {\n        hmac.update(part);\n    }\n    let hmac_result = hmac.finalize().into_bytes();\n    const_assert!", "ok")
m("g01-ref-index", ["G01","G02","G03"], CR, "        for state in states.iter() {\n            if state.sender_state.ratchet_counter == ratchet_counter\n                && check_mac(state, frame_counter, data, mac)\n            {\n                decrypt_internal(state, frame_counter, data);\n                return Ok(());\n            }\n        }", "        if let Some(state) = states\n            .iter()\n            .find(|s| s.sender_state.ratchet_counter == ratchet_counter && check_mac(s, frame_counter, data, mac))\n        {\n            decrypt_internal(state, frame_counter, data);\n            return Ok(());\n        }", "ok")
m("g02-noinc", ["G02"], CR, "        self.next_frame_counter += 1;\n\n        let iv", "        if data.is_empty() {\n            self.next_frame_counter += 1;\n        }\n        self.next_frame_counter = self.next_frame_counter.max(frame_counter);\n        let iv", "bad")
m("g02-reset", ["G02"], CR, "        self.sender_state = SenderState::new(0, secret);\n    }", "        self.sender_state = SenderState::new(0, secret);\n        self.next_frame_counter = 1;\n    }", "bad")
m("g02-ivback", ["G02"], CR, "safe_copy_array(&frame_counter.to_be_bytes(), &mut result);", "result[8..].copy_from_slice(&frame_counter.to_be_bytes());", "bad")
m("g02-ivtrunc", ["G02"], CR, "safe_copy_array(&frame_counter.to_be_bytes(), &mut result);", "safe_copy_array(&(frame_counter as u16).to_be_bytes(), &mut result);", "bad")
m("g02-cut", ["G02"], GCR, "        if frame_counter > u32::MAX as u64 {\n            return Err(RingRtcError::FrameCounterTooBig.into());\n        }\n", "", "bad")
m("g03-keep", ["G03"], CR, "            .expand(RATCHET_INFO_STRING, &mut self.current_secret[..])", "            .expand(b\"RingRTC AES Key\", &mut self.current_secret[..])", "bad")
m("g03-norederive", ["G03"], CR, "        self.derive_aes_key();\n        self.derive_hmac_key();\n        self.ratchet_counter =", "        self.derive_aes_key();\n        self.ratchet_counter =", "bad")
m("g03-nopop", ["G03"], CR, "if states.len() == MAX_RECEIVER_STATES_TO_RETAIN {", "if states.len() > 2 * MAX_RECEIVER_STATES_TO_RETAIN {", "bad")
m("g03-samelabel", ["G03"], CR, ".expand(b\"RingRTC HMAC Key\"", ".expand(b\"RingRTC AES Key\"", "bad")
m("g03-nolimit", ["G03"], CR, "                try_state.limit_ooo();\n", "", "bad")
m("g03-limit-off", ["G03"], CR, "            > MAX_OOO_RATCHETS\n", "            > MAX_OOO_RATCHETS + 40\n", "bad")
m("g03-push-back", ["G03"], CR, "states.insert(0, ReceiverState::new(ratchet_counter, secret));", "states.push(ReceiverState::new(ratchet_counter, secret));", "bad")
m("g03-while2", ["G03"], CR, "            cur = cur.wrapping_add(1);\n        }\n        let sender_state", "            cur = cur.wrapping_add(2);\n        }\n        let sender_state", "bad")
m("g03-old", ["G03"], CR, "            self.old_ratchet_counter = self.old_ratchet_counter.wrapping_add(1);", "            self.old_ratchet_counter = self.old_ratchet_counter.wrapping_add(2);", "bad")
m("g03-ref-inline", ["G01","G02","G03"], CR, "        let sender_state = SenderState::new(ratchet_counter_goal, secret);\n        if frame_counter.wrapping_sub(self.ratchet_frame) > MAX_OOO_FRAMES {\n            Self {\n                sender_state,\n                ratchet_frame: frame_counter,\n                old_secret: self.sender_state.current_secret,\n                old_ratchet_counter: self.sender_state.ratchet_counter,\n            }\n        } else {\n            Self {\n                sender_state,\n                ratchet_frame: frame_counter,\n                old_secret: self.old_secret,\n                old_ratchet_counter: self.old_ratchet_counter,\n            }\n        }", "        let (old_secret, old_ratchet_counter) =\n            if frame_counter.wrapping_sub(self.ratchet_frame) > MAX_OOO_FRAMES {\n                (self.sender_state.current_secret, self.sender_state.ratchet_counter)\n            } else {\n                (self.old_secret, self.old_ratchet_counter)\n            };\n        Self {\n            sender_state: SenderState::new(ratchet_counter_goal, secret),\n            ratchet_frame: frame_counter,\n            old_secret,\n            old_ratchet_counter,\n        }", "ok")
m("g03-ref-step", ["G01","G02","G03"], CR, ["            let secret_hkdf = Hkdf::<Sha256>::new(None, &secret);\n            secret_hkdf\n                .expand(RATCHET_INFO_STRING, &mut secret[..])\n                .unwrap_or_else(|_| {\n                    panic!(\n                        \"HKDF should work with output of length {}\",\n                        std::mem::size_of::<Secret>()\n                    )\n                });\n            cur = cur.wrapping_add(1);", "fn convert_frame_counter_to_iv("], ["            Self::step(&mut secret);\n            cur = cur.wrapping_add(1);", "impl ReceiverState {\n    fn step(secret: &mut Secret) {\n        Hkdf::<Sha256>::new(None, &secret[..])\n            .expand(RATCHET_INFO_STRING, &mut secret[..])\n            .expect(\"HKDF length\");\n    }\n}\n\nfn convert_frame_counter_to_iv("], "ok")
m("g03-ref-trunc", ["G01","G02","G03"], CR, "        if states.len() == MAX_RECEIVER_STATES_TO_RETAIN {\n            states.pop();\n        }\n        states.insert(0, ReceiverState::new(ratchet_counter, secret));", "        states.insert(0, ReceiverState::new(ratchet_counter, secret));\n        states.truncate(MAX_RECEIVER_STATES_TO_RETAIN);", "ok")
m("g03-ref-ge", ["G01","G02","G03"], CR, "        if states.len() == MAX_RECEIVER_STATES_TO_RETAIN {\n            states.pop();\n        }", "        while states.len() >= MAX_RECEIVER_STATES_TO_RETAIN {\n            states.pop();\n        }", "ok")
m("g03-mix", ["G03"], CR, "                old_secret: self.sender_state.current_secret,\n                old_ratchet_counter: self.sender_state.ratchet_counter,", "                old_secret: self.sender_state.current_secret,\n                old_ratchet_counter: ratchet_counter_goal,", "bad")
AC = "src/rust/src/common/actor.rs"
_chk = "                if stopped.load(atomic::Ordering::SeqCst) {\n                    break;\n                }\n"
m("s07-check-late", ["S07"], AC, [_chk, "                    (received_task.run)(&mut state);\n                }\n"], ["", "                    (received_task.run)(&mut state);\n                }\n" + _chk], "bad")
m("s07-check-ok-only", ["S07"], AC, [_chk, "                            Ok(received_task) => received_task,\n                            Err(RecvTimeoutError::Disconnected)"], ["", "                            Ok(received_task) => {\n                                if stopped.load(atomic::Ordering::SeqCst) {\n                                    break;\n                                }\n                                received_task\n                            }\n                            Err(RecvTimeoutError::Disconnected)"], "bad")
m("s07-noreverse", ["S07"], AC, "self.deadline.cmp(&other.deadline).reverse()", "self.deadline.cmp(&other.deadline)", "bad")
m("s07-stop-order", ["S07"], AC, ["        stopped.store(true, atomic::Ordering::SeqCst);\n        // Sending", "        let _ = self.sender.send(Task::immediate(Box::new(|_state| {})));\n    }"], ["        // Sending", "        let _ = self.sender.send(Task::immediate(Box::new(|_state| {})));\n        stopped.store(true, atomic::Ordering::SeqCst);\n    }"], "bad")
m("s07-nodeadline", ["S07"], AC, "deadline: Some(Instant::now() + delay),", "deadline: Some(Instant::now().max(Instant::now() + delay / 2)),", "bad")
m("s07-drop-delayed", ["S07"], AC, "                    if delayed_tasks.len() > 2 {\n", "                    if delayed_tasks.len() > 64 {\n                        delayed_tasks.pop();\n                    }\n                    if delayed_tasks.len() > 2 {\n", "bad")
m("s07-otherflag", ["S07"], AC, "let stopped_to_register = stopped.clone();", "let stopped_to_register = Arc::new(AtomicBool::new(stopped.load(atomic::Ordering::SeqCst)));", "bad")
m("s07-stopsome", ["S07"], AC, "            .drain(..)\n            .map(", "            .drain(..)\n            .filter(|a| !a.stopped.load(atomic::Ordering::SeqCst))\n            .map(", "bad")
m("s07-unwrap", ["S07"], AC, "        let _ = self.sender.send(Task::immediate(Box::new(run)));", "        self.sender.send(Task::immediate(Box::new(run))).ok().expect(\"actor is gone\");", "bad")
m("s07-waitlong", ["S07"], AC, "receiver.recv_timeout(delayed_task.timeout())", "receiver.recv_timeout(delayed_task.timeout() / 2)", "bad")
m("s07-ref-for", ["S07"], AC, """        actors
            .drain(..)
            .map(
                |StoppableActorHandle {
                     actor,
                     stopped,
                     join_handle,
                 }| {
                    actor.stop(&stopped);
                    join_handle
                },
            )
            .collect()""", """        let mut handles = Vec::with_capacity(actors.len());
        for handle in std::mem::take(&mut *actors) {
            handle.actor.stop(&handle.stopped);
            handles.push(handle.join_handle);
        }
        handles""", "ok")
m("s07-ref-while", ["S07"], AC, ["""                let received_task = match delayed_tasks.peek() {""", """                if stopped.load(atomic::Ordering::SeqCst) {
                    break;
                }
                if received_task.is_delayed() {
                    delayed_tasks.push(received_task);
                    if delayed_tasks.len() > 2 {
                        warn!("delayed_tasks exceed 2, len(): {}", delayed_tasks.len());
                    }
                } else {
                    (received_task.run)(&mut state);
                }"""], ["""                let next = match delayed_tasks.peek() {""", """                let should_stop = stopped.load(atomic::Ordering::SeqCst);
                if should_stop {
                    return;
                }
                if next.deadline.is_none() {
                    let run = next.run;
                    run(&mut state);
                    continue;
                }
                delayed_tasks.push(next);
                Self::warn_if_many(delayed_tasks.len());"""] , "ok")
M[-1] = M[-1][:2] + (AC, M[-1][3] + ["    pub fn send(&self, run"], M[-1][4] + ["    fn warn_if_many(count: usize) {\n        if count > 2 {\n            warn!(\"delayed_tasks exceed 2, len(): {}\", count);\n        }\n    }\n\n    pub fn send(&self, run"], "ok")
m("s07-ref-wait", ["S07"], AC, """                            Err(RecvTimeoutError::Timeout) => {
                                delayed_tasks.pop().unwrap().into_immediate()
                            }""", """                            Err(RecvTimeoutError::Timeout) => match delayed_tasks.pop() {
                                Some(task) => Task::immediate(task.run),
                                None => continue,
                            },""", "ok")
HT = "src/rust/src/lite/http.rs"
m("t03-get", ["T03"], HT, ["pub type ResponseCallback = Box<dyn FnOnce(Option<Response>) + Send>;", "self.response_callback_by_request_id.remove(&request_id)"], ["pub type ResponseCallback = Box<dyn FnOnce(Option<Response>) + Send>;", "if self.response_callback_by_request_id.len() > 1 { self.response_callback_by_request_id.remove(&request_id) } else { None }"], "bad")
m("t03-locked", ["T03"], HT, """        let response_callback = {
            let mut response_callbacks = self
                .response_callbacks
                .lock()
                .expect("http:DelegatingClient:response_callbacks lock");
            response_callbacks.pop(request_id)
        };
        if""", """        let mut response_callbacks = self
            .response_callbacks
            .lock()
            .expect("http:DelegatingClient:response_callbacks lock");
        let response_callback = response_callbacks.pop(request_id);
        if""", "bad")
m("t03-iflet-guard", ["T03"], HT, ["""        let response_callback = {
            let mut response_callbacks = self
                .response_callbacks
                .lock()
                .expect("http:DelegatingClient:response_callbacks lock");
            response_callbacks.pop(request_id)
        };
        if let Some(response_callback) = response_callback {"""], ["""        if let Some(response_callback) = self
                .response_callbacks
                .lock()
                .expect("http:DelegatingClient:response_callbacks lock").pop(request_id) {"""], "bad")
m("t03-sameid", ["T03"], HT, "self.next_request_id = self.next_request_id.wrapping_add(1);", "self.next_request_id = self.response_callback_by_request_id.len() as u32;", "bad")
m("t03-dropfail", ["T03"], HT, "        if let Some(response_callback) = response_callback {\n            debug!", "        if let Some(response_callback) = response_callback {\n            if response.as_ref().is_some_and(|r| r.status.is_error() && r.body.is_empty()) {\n                return;\n            }\n            debug!", "bad")
m("t03-order", ["T03"], HT, """        let request_id = {
            let mut response_callbacks = self
                .response_callbacks
                .lock()
                .expect("http:DelegatingClient:response_callbacks lock");
            response_callbacks.push(response_callback)
        };
        let delegate = self
            .delegate
            .lock()
            .expect("http:DelegatingClient:state lock");
        delegate.send_request(request_id, request)""", """        let request_id = self.response_callbacks.lock().expect("lock").next_request_id;
        let delegate = self
            .delegate
            .lock()
            .expect("http:DelegatingClient:state lock");
        delegate.send_request(request_id, request);
        self.response_callbacks.lock().expect("lock").push(response_callback);""", "bad")
m("t03-simonce", ["T03"], HT, "                        } else {\n                            response_callback(None);\n                        }", "                        }", "bad")
m("t03-failed-some", ["T03"], HT, "            let response = None;\n            client", "            let response = Some(http::Response { status: 0.into(), body: vec![] });\n            client", "bad")
m("t03-ref-entry", ["T03"], HT, ["""    fn pop(&mut self, request_id: u32) -> Option<ResponseCallback> {
        self.response_callback_by_request_id.remove(&request_id)""", """        if let Some(response_callback) = response_callback {
            debug!("http:DelegatingClient:received_response(): calling registered callback");
            response_callback(response);
        } else {
            error!(
                "http:DelegatingClient:received_response(): unknown request ID: {}",
                request_id
            );
        }"""], ["""    fn pop(&mut self, request_id: u32) -> Option<ResponseCallback> {
        match self.response_callback_by_request_id.remove_entry(&request_id) {
            Some((_, callback)) => Some(callback),
            None => None,
        }""", """        let Some(callback) = response_callback else {
            error!("unknown request ID: {}", request_id);
            return;
        };
        callback(response);"""], "ok")
m("t03-ref-lock", ["T03"], HT, """        let response_callback = {
            let mut response_callbacks = self
                .response_callbacks
                .lock()
                .expect("http:DelegatingClient:response_callbacks lock");
            response_callbacks.pop(request_id)
        };""", """        let mut guard = self
            .response_callbacks
            .lock()
            .expect("http:DelegatingClient:response_callbacks lock");
        let response_callback = guard.pop(request_id);
        drop(guard);""", "ok")
AS = "src/rust/src/core/assets.rs"
m("s08-nosize", ["S08"], AS, ["            if content.len() < expected_size {\n                continue;\n            }\n\n            let content_hash = Sha512::digest(&content[..expected_size]);"], ["            let prefix = content.len().min(expected_size);\n            let content_hash = Sha512::digest(&content[..prefix]);"], "bad")
m("s08-notrunc", ["S08"], AS, "            content.truncate(expected_size);\n", "", "bad")
m("s08-disabled", ["S08"], AS, "            if entry.disabled {\n                return Err(AssetError::DisabledAsset);\n            }\n", "            if entry.disabled && supported_versions.len() == 1 {\n                return Err(AssetError::DisabledAsset);\n            }\n", "bad")
m("s08-group", ["S08"], AS, ".filter(|entry| entry.metadata.asset_group == asset_group)", ".filter(|entry| entry.metadata.asset_group.starts_with(asset_group))", "bad")
m("s08-hashprefix", ["S08"], AS, "if content_hash[..] != entry.metadata.sha512_hash[..] {", "let n = entry.metadata.sha512_hash.len().min(content_hash.len());\n            if content_hash[..n] != entry.metadata.sha512_hash[..n] {", "bad")
m("s08-first", ["S08"], AS, "            return Ok(entry.metadata.clone());", "            return Ok(supported_versions[0].metadata.clone());", "bad")
m("s08-dup", ["S08"], AS, "asset_set.iter().any(|a| a.version == version)", "asset_set.iter().any(|a| a.version == version && a.content == asset.content)", "bad")
m("s08-getany", ["S08"], AS, ".and_then(|set| set.iter().find(|a| a.version == version).cloned())", ".and_then(|set| set.iter().find(|a| a.version >= version).cloned())", "bad")
m("s08-early", ["S08"], AS, ["        if asset_set.iter().any(|a| a.version == version) {\n            return Err", "        let _ = asset_set.insert(asset);\n\n        Ok(())"], ["        if !asset_set.insert(asset) || asset_set.iter().filter(|a| a.version == version).count() > 1 {\n            return Err", "        Ok(())"], "bad")
m("s08-ref-for", ["S08"], AS, ["""        self.manifest
            .iter()
            .filter(|entry| entry.metadata.asset_group == asset_group)
            .collect()""", """            if content.len() < expected_size {
                continue;
            }

            let content_hash = Sha512::digest(&content[..expected_size]);
            if content_hash[..] != entry.metadata.sha512_hash[..] {
                continue;
            }
"""], ["""        let mut result = Vec::new();
        for entry in &self.manifest {
            if entry.metadata.asset_group == asset_group {
                result.push(entry);
            }
        }
        result""", """            let matches = content.len() >= expected_size
                && Sha512::digest(&content[..expected_size])[..] == entry.metadata.sha512_hash[..];
            if !matches {
                continue;
            }
"""], "ok")
m("s08-ref-get", ["S08"], AS, [""".get(asset_group)
                .and_then(|set| set.iter().find(|a| a.version == version).cloned()),""", "            if content.len() < expected_size {\n                continue;\n            }\n\n            let content_hash = Sha512::digest(&content[..expected_size]);"], [""".get(asset_group)?
                .iter()
                .find(|a| version == a.version)
                .cloned(),""", "            let Some(prefix) = content.get(..expected_size) else {\n                continue;\n            };\n            let content_hash = Sha512::digest(prefix);"], "ok")
m("s08-ref-helper", ["S08"], AS, ["""            if content.len() < expected_size {
                continue;
            }

            let content_hash = Sha512::digest(&content[..expected_size]);
            if content_hash[..] != entry.metadata.sha512_hash[..] {
                continue;
            }
""", "    pub fn get_registry(&self)", "        if asset_set.iter().any(|a| a.version == version) {\n            return Err"], ["""            if !Self::matches_entry(entry, content) {
                continue;
            }
""", """    fn matches_entry(entry: &AssetManifestEntry, content: &[u8]) -> bool {
        let size = entry.metadata.size_bytes as usize;
        if content.len() < size {
            return false;
        }
        let hash = Sha512::digest(&content[..size]);
        hash[..] == entry.metadata.sha512_hash[..]
    }

    pub fn get_registry(&self)""", "        let taken = asset_set.iter().any(|a| a.version == version);\n        if taken {\n            return Err"], "ok")
BS = "src/rust/src/lite/call_links/base16.rs"
RK = "src/rust/src/lite/call_links/root_key.rs"
m("t05-alpha", ["T05"], BS, '"bcdfghkmnpqrstxz"', '"bcdfghkmnpqrstwz"', "bad")
m("t05-table", ["T05"], BS, "table[i * 16 + j] = [alphabet[i], alphabet[j]];", "table[i * 16 + j] = [alphabet[i], alphabet[if i == 7 { j ^ (j >> 3) } else { j }]];", "bad")
m("t05-case", ["T05"], BS, ".position(|b| b == second)", ".position(|b| b.eq_ignore_ascii_case(second))", "bad")
m("t05-nibble", ["T05"], BS, "result.push((upper << 4) + lower);", "result.push((upper << 4) + if result.len() == 24 { upper } else { lower });", "bad")
m("t05-sep", ["T05"], BS, 'b"-"; // only', 'b"- "; // only', "bad")
m("t05-trail", ["T05"], BS, """                        let position = string.len() - (bytes.len() + 1);
                        return Err(DecodeError::UnexpectedSeparator(position));
                    }""", """                        break;
                    }""", "bad")
m("t05-odd", ["T05"], BS, "let second = bytes.next().ok_or(DecodeError::OddLengthInput)?;", "let Some(second) = bytes.next() else { if result.len() > 4 { break; } return Err(DecodeError::OddLengthInput) };", "bad")
m("t05-vermask", ["T05"], RK, "const VERSION_MASK: u8 = Self::INVALID_BIT ^ 0xff;", "const VERSION_MASK: u8 = Self::INVALID_BIT ^ 0x8f;", "bad")
m("t05-norepeat", ["T05"], RK, "if has_repeated_chunk(&bytes[..CRN_LEN]) {\n            bail", "if has_repeated_chunk(&bytes[..CRN_LEN / 2]) {\n            bail", "bad")
m("t05-repmod", ["T05"], RK, "% 0x1111 == 0", "% 0x2222 == 0", "bad")
m("t05-len", ["T05"], RK, "CallLinkRootKeyV1::LEN => Self::V1(CallLinkRootKeyV1::try_from(value)?),", "n if n >= CallLinkRootKeyV1::LEN => Self::V1(CallLinkRootKeyV1::try_from(&value[..CallLinkRootKeyV1::LEN])?),", "bad")
m("t05-nonce", ["T05"], RK, "rng.fill_bytes(&mut nonce);\n        buffer", "rng.fill_bytes(&mut nonce[..4]);\n        buffer", "bad")
m("t05-pad", ["T05"], RK, "const ENCRYPTION_BLOCK_SIZE: usize = 32;", "const ENCRYPTION_BLOCK_SIZE: usize = 16;", "bad")
m("t05-sepsize", ["T05"], RK, "[usize; 6] = [4, 4, 4, 4, 1, 4]", "[usize; 6] = [4, 4, 4, 4, 1, 5]", "bad")
m("t05-marker", ["T05"], RK, ".rposition(|&b| b == Self::ENCRYPTION_PADDING_MARKER)", ".rposition(|&b| b >= Self::ENCRYPTION_PADDING_MARKER)", "bad")
m("t05-ref-any", ["T05"], RK, """    for pair in bytes.chunks_exact(2) {
        if u16::from_le_bytes(pair.try_into().unwrap()) % 0x1111 == 0 {
            return true;
        }
    }
    false""", """    bytes
        .chunks_exact(2)
        .any(|pair| u16::from_le_bytes(pair.try_into().unwrap()) % 0x1111 == 0)""", "ok")
m("t05-ref-helper", ["T05"], BS, ["""            let upper = ALPHABET
                .iter()
                .position(|b| b == first)
                .ok_or_else(|| identify_bad_char(&bytes))? as u8;
""", """            let lower = ALPHABET
                .iter()
                .position(|b| b == second)
                .ok_or_else(|| identify_bad_char(&bytes))? as u8;
""", "#[cfg(test)]\nmod tests"], ["            let upper = symbol_value(*first).ok_or_else(|| identify_bad_char(&bytes))?;\n", "            let lower = match symbol_value(*second) { Some(x) => x, None => return Err(identify_bad_char(&bytes)) };\n", "fn symbol_value(c: u8) -> Option<u8> {\n    ALPHABET.iter().position(|b| *b == c).map(|x| x as u8)\n}\n\n#[cfg(test)]\nmod tests"], "ok")
m("t05-ref-or", ["T05"], BS, "result.push((upper << 4) + lower);", "let byte = lower | (upper << 4);\n            result.push(byte);", "ok")
m("t05-ref-fmt", ["T05"], BS, """        let mut is_first = true;
        for chunk in self.0.chunks(f.precision().unwrap_or(usize::MAX)) {
            if is_first {
                is_first = false;
            } else {
                f.write_char(f.fill())?;
            }""", """        let size = f.precision().unwrap_or(usize::MAX);
        for (i, chunk) in self.0.chunks(size).enumerate() {
            if i > 0 {
                f.write_char(f.fill())?;
            }""", "ok")
m("t05-ref-crypt", ["T05"], RK, """        if has_repeated_chunk(&crn) {
            bail!("invalid root key adjacent bytes");
        }
        Ok(Self { crn })""", """        if !has_repeated_chunk(&crn) {
            Ok(Self { crn })
        } else {
            bail!("invalid root key adjacent bytes");
        }""", "ok")

# ---- S11
R = "src/rust/src/"
CM, RW, SL, UT, AU, MD = R + "core/call_mutex.rs", R + "core/call_rwlock.rs", R + "common/slice.rs", R + "core/util.rs", R + "webrtc/audio_device_module_utils.rs", R + "webrtc/media.rs"
m("s11-into-inner", ["S11"], CM, "Err(_) => Err(RingRtcError::MutexPoisoned(self.label.clone()).into()),", "Err(e) => Ok(e.into_inner()),", "bad")
m("s11-unwrap", ["S11"], RW, "        match self.rwlock.write() {\n            Ok(v) => Ok(v),\n            Err(_) => Err(RingRtcError::RwLockPoisoned(self.label.clone()).into()),\n        }", "        Ok(self.rwlock.write().unwrap())", "bad")
m("s11-noreset", ["S11"], CM, "            **poison_error.get_mut() = new_value;\n", "            drop(new_value);\n", "bad")
m("s11-sync", ["S11"], RW, "unsafe impl<T: ?Sized + Send + Sync> Sync for", "unsafe impl<T: ?Sized + Send> Sync for", "bad")
m("s11-short", ["S11"], SL, """impl<T: Copy> SafeSlicing<T> for Vec<T> {
    #![allow(clippy::disallowed_methods)]
    fn safe_copy_from_slice(&mut self, src: &[T]) -> Result<(), SliceError> {
        if self.len() == src.len() {
            self.copy_from_slice(src);""", """impl<T: Copy> SafeSlicing<T> for Vec<T> {
    #![allow(clippy::disallowed_methods)]
    fn safe_copy_from_slice(&mut self, src: &[T]) -> Result<(), SliceError> {
        if self.len() >= src.len() {
            self[..src.len()].copy_from_slice(src);""", "bad")
m("s11-nonull", ["S11"], UT, """    if ptr.is_null() {
        return Err(
            RingRtcError::NullPointer("ptr_as_box<T>()".to_string(), "ptr".to_string()).into(),
        );
    }
""", "", "bad")
m("s11-lent", ["S11"], UT, "            let _ = Arc::into_raw(arc);", "            drop(arc);", "bad")
m("s11-cut", ["S11"], AU, "std::cmp::min(src.len(), max_size)", "std::cmp::min(src.len(), max_size + 1)", "bad")
m("s11-cut2", ["S11"], AU, "            c_str_bytes.len(),\n", "            c_str_bytes.len() + 1,\n", "bad")
m("s11-rgba3", ["S11"], MD, "VideoPixelFormat::Rgba => pixels.saturating_mul(4),", "VideoPixelFormat::Rgba => pixels.saturating_mul(3),", "bad")
m("s11-wrap", ["S11"], MD, "VideoPixelFormat::Rgba => pixels.saturating_mul(4),", "VideoPixelFormat::Rgba => pixels.wrapping_mul(4),", "bad")
m("s11-torgba", ["S11"], MD, "        if rgba_buffer.len() < VideoPixelFormat::Rgba.buffer_size(self.width(), self.height()) {\n            return false;\n        }\n", "", "bad")
m("s11-overlap", ["S11"], GCR, "        if self.remaining_len() < input.len() {\n            return Err(RingRtcError::BufferTooSmall.into());\n        }\n        let start = self.offset;\n        let end = start + input.len();\n        let output = &mut self.buf[start..end];\n\n        // Use", "        let start = self.offset;\n        let end = start + self.remaining_len();\n        let output = &mut self.buf[start..end];\n\n        // Use", "bad")
m("s11-ref-maperr", ["S11"], CM, """        match self.mutex.lock() {
            Ok(v) => Ok(v),
            Err(_) => Err(RingRtcError::MutexPoisoned(self.label.clone()).into()),
        }""", "        self.mutex\n            .lock()\n            .map_err(|_| RingRtcError::MutexPoisoned(self.label.clone()).into())", "ok")
m("s11-ref-match", ["S11"], CM, """        self.mutex.lock().unwrap_or_else(|mut poison_error| {
            let new_value = reset(&self.label);
            **poison_error.get_mut() = new_value;
            poison_error.into_inner()
        })""", """        match self.mutex.lock() {
            Ok(guard) => guard,
            Err(poisoned) => {
                let mut guard = poisoned.into_inner();
                *guard = reset(&self.label);
                guard
            }
        }""", "ok")
m("s11-ref-slice", ["S11"], SL, """        if N == src.len() {
            self.copy_from_slice(src);
            Ok(())
        } else {
            Err(SliceError::MismatchedLengths)
        }""", """        if src.len() != N {
            return Err(SliceError::MismatchedLengths);
        }
        self.copy_from_slice(src);
        Ok(())""", "ok")
m("s11-ref-ptr", ["S11"], UT, ["""    if ptr.is_null() {
        return Err(
            RingRtcError::NullPointer("ptr_as_box<T>()".to_string(), "ptr".to_string()).into(),
        );
    }
""", "pub unsafe fn ptr_as_mut<T>"], ["    check_not_null(ptr, \"ptr_as_box<T>()\")?;\n", """fn check_not_null<T>(ptr: *mut T, function: &str) -> Result<()> {
    if ptr.is_null() {
        Err(RingRtcError::NullPointer(function.to_string(), "ptr".to_string()).into())
    } else {
        Ok(())
    }
}

/// # Safety
///
/// Casts.
pub unsafe fn ptr_as_mut<T>"""], "ok")
m("s11-ref-ptr2", ["S11"], UT, ["""    if ptr.is_null() {
        return Err(
            RingRtcError::NullPointer("ptr_as_mut<T>()".to_string(), "ptr".to_string()).into(),
        );
    }

    let object = unsafe { &mut *ptr };
    Ok(object)"""], ["""    unsafe { ptr.as_mut() }.ok_or_else(|| {
        RingRtcError::NullPointer("ptr_as_mut<T>()".to_string(), "ptr".to_string()).into()
    })"""], "ok")
m("s11-ref-arcdrop", ["S11"], UT, """        let mut swap = None;
        mem::swap(&mut swap, &mut self.arc);
        if let Some(arc) = swap {""", "        if let Some(arc) = self.arc.take() {", "ok")
m("s11-ref-cut", ["S11"], AU, """    let max_size = dest_size
        .checked_sub(1)
        .ok_or(anyhow!("no room for the nul terminator"))?;
    let size = std::cmp::min(src.len(), max_size);
    let c_str = CString::new(src.get(0..size).ok_or(anyhow!("couldn't get substring"))?)?;
    let c_str_bytes = c_str.as_bytes_with_nul();""", """    if dest_size == 0 {
        return Err(anyhow!("no room for the nul terminator"));
    }
    let room = dest_size - 1;
    let end = if src.len() < room { src.len() } else { room };
    let cut = src.get(..end).ok_or(anyhow!("couldn't get substring"))?;
    let c_str = CString::new(cut)?;
    let c_str_bytes = c_str.to_bytes_with_nul();""", "ok")
m("s11-ref-frame", ["S11"], MD, """        let (width, height) = (width as usize, height as usize);
        let pixels = width.saturating_mul(height);
        match self {
            VideoPixelFormat::I420 | VideoPixelFormat::Nv12 => {
                let chroma_pixels = width.div_ceil(2).saturating_mul(height.div_ceil(2));
                pixels.saturating_add(chroma_pixels.saturating_mul(2))
            }
            VideoPixelFormat::Rgba => pixels.saturating_mul(4),
        }""", """        let (w, h) = (width as usize, height as usize);
        let chroma = || 2usize.saturating_mul(h.div_ceil(2).saturating_mul(w.div_ceil(2)));
        if self == VideoPixelFormat::Rgba {
            4usize.saturating_mul(h).saturating_mul(w)
        } else {
            h.saturating_mul(w).saturating_add(chroma())
        }""", "ok")

# ---- S10
SR = R + "simnet/router.rs"
IN = R + "webrtc/injectable_network.rs"
m("s10-noreset", ["S10"], SR, "            state.previous_packet_dropped = false;\n", "", "bad")
m("s10-swapprob", ["S10"], SR, """                state.config.repeated_loss_probability
            } else {
                state.config.loss_probability""", """                state.config.loss_probability
            } else {
                state.config.repeated_loss_probability""", "bad")
m("s10-ge", ["S10"], SR, "if (queued_size + packet_size_with_overhead) > max_size {", "if (queued_size + packet_size_with_overhead) >= max_size {", "bad")
m("s10-noself", ["S10"], SR, "if (queued_size + packet_size_with_overhead) > max_size {", "if queued_size > max_size {", "bad")
m("s10-subplain", ["S10"], SR, ".fetch_sub(packet_size_with_overhead.as_bytes(), ordering);", ".fetch_sub(packet.data.len() as u64, ordering);", "bad")
m("s10-addearly", ["S10"], SR, ["        if (queued_size + packet_size_with_overhead) > max_size {", """        self.queued_size
            .fetch_add(packet_size_with_overhead.as_bytes(), ordering);
        self.actor"""], ["""        self.queued_size
            .fetch_add(packet_size_with_overhead.as_bytes(), ordering);
        if (queued_size + packet_size_with_overhead) > max_size {""", "        self.actor"], "bad")
m("s10-bysource", ["S10"], SR, "state.receive_link_by_ip.get(&packet.dest.ip())", "state.receive_link_by_ip.get(&packet.source.ip())", "bad")
m("s10-nodelay", ["S10"], SR, ".send_delayed(delay, move |state| state.leaky_bucket.send_packet(packet));", ".send(move |state| state.leaky_bucket.send_packet(packet));\n            let _ = delay;", "bad")
m("s10-halfopen", ["S10"], SR, "(config.delay_min.as_millis() as u64)..=(config.delay_max.as_millis() as u64)", "(config.delay_min.as_millis() as u64)..(config.delay_max.as_millis() as u64)", "bad")
m("s10-swapped", ["S10"], SR, ["state.send_link_by_ip.insert(ip, send_link);", "state.receive_link_by_ip.insert(ip, receive_link);"], ["state.send_link_by_ip.insert(ip, receive_link);", "state.receive_link_by_ip.insert(ip, send_link);"], "bad")
m("s10-owncounter", ["S10"], SR, "let queued_size_clone = queued_size.clone();", "let queued_size_clone = Arc::new(AtomicU64::new(0));", "bad")
m("s10-truncate", ["S10"], IN, "unsafe { std::slice::from_raw_parts(data.as_ptr(), size) }.to_vec();", "unsafe { std::slice::from_raw_parts(data.as_ptr(), size.min(1500)) }.to_vec();", "bad")
m("s10-srcdst", ["S10"], IN, ["            source: source.socket_addr(),\n            dest: dest.socket_addr(),"], ["            source: dest.socket_addr(),\n            dest: source.socket_addr(),"], "bad")
m("s10-ref-let", ["S10"], SR, """            if let Some(send_link) = state.send_link_by_ip.get(&packet.source.ip()) {
                send_link.send_packet(packet);
            } else {
                debug!(
                    "Dropped send packet because the source IP ({:?}) was unknown.",
                    packet.source.ip()
                );
            }""", """            let ip = packet.source.ip();
            match state.send_link_by_ip.get(&ip) {
                None => debug!(
                    "Dropped send packet because the source IP ({:?}) was unknown.",
                    ip
                ),
                Some(link) => link.send_packet(packet),
            }""", "ok")
m("s10-ref-prob", ["S10"], SR, ["""            let loss_probability = if state.previous_packet_dropped {
                state.config.repeated_loss_probability
            } else {
                state.config.loss_probability
            };
            if !packet.reliable() && state.rng.gen_bool(loss_probability) {""", "struct LeakyBucket {"], ["""            if !packet.reliable() && state.rng.gen_bool(state.loss_probability()) {""", """impl LinkState {
    fn loss_probability(&self) -> f64 {
        match self.previous_packet_dropped {
            true => self.config.repeated_loss_probability,
            false => self.config.loss_probability,
        }
    }
}

struct LeakyBucket {"""], "ok")
m("s10-ref-order", ["S10"], SR, """            let delay = Duration::from_millis(state.delay_distribution.sample(&mut state.rng));
            state
                .actor
                .send_delayed(delay, move |state| state.leaky_bucket.send_packet(packet));""", """            let millis = state.delay_distribution.sample(&mut state.rng);
            let actor = &state.actor;
            actor.send_delayed(Duration::from_millis(millis), move |state| {
                let bucket = &state.leaky_bucket;
                bucket.send_packet(packet);
            });""", "ok")
m("s10-ref-fits", ["S10"], SR, ["        if (queued_size + packet_size_with_overhead) > max_size {", "            return; // Drop the packet!\n        }\n", "impl LeakyBucket {"], ["        let fits = queued_size + packet_size_with_overhead <= max_size;\n        if !fits {", "            return; // Drop the packet!\n        }\n        let amount = packet_size_with_overhead.as_bytes();\n", "impl LeakyBucket {\n"], "ok")
m("s10-ref-size", ["S10"], SR, """        let packet_size_without_overhead = DataSize::from_bytes(packet.data.len() as u64);
        let packet_size_with_overhead""", """        let packet_size_without_overhead = packet.size();
        let packet_size_with_overhead""", "ok")
m("s10-ref-bytes", ["S10"], SR, """                .fetch_sub(packet_size_with_overhead.as_bytes(), ordering);

            // Simulates the time it takes to transmit a packet.
            // TODO: accumulate sleep amounts and only sleep when more
            // than some threshold for systems that have imprecise sleep.
            thread::sleep(packet_size_with_overhead / rate);
""", """                .fetch_sub(packet_size_with_overhead.as_bytes(), ordering);
            let transmission_time = packet_size_with_overhead / rate;
            if !transmission_time.is_zero() {
                thread::sleep(transmission_time);
            }
""", "ok")

# ---- S09
SG = R + "core/signaling.rs"
CMN = R + "common/mod.rs"
SD = R + "webrtc/sdp_observer.rs"
NW = R + "webrtc/network.rs"
m("s09-hangup-swap", ["S09"], SG, ["            2 => Some(HangupType::DeclinedOnAnotherDevice),", "            3 => Some(HangupType::BusyOnAnotherDevice),"], ["            3 => Some(HangupType::DeclinedOnAnotherDevice),", "            2 => Some(HangupType::BusyOnAnotherDevice),"], "bad")
m("s09-hangup-back", ["S09"], SG, ["            HangupType::DeclinedOnAnotherDevice => Self::DeclinedOnAnotherDevice(device_id),", "            HangupType::BusyOnAnotherDevice => Self::BusyOnAnotherDevice(device_id),"], ["            HangupType::BusyOnAnotherDevice => Self::DeclinedOnAnotherDevice(device_id),", "            HangupType::DeclinedOnAnotherDevice => Self::BusyOnAnotherDevice(device_id),"], "bad")
m("s09-need-perm-none", ["S09"], SG, "            HangupType::NeedPermission => Self::NeedPermission(Some(device_id)),", "            HangupType::NeedPermission => Self::NeedPermission(None),", "bad")
m("s09-datamode-default", ["S09"], CMN, """                warn!("Invalid DataMode: {}", value);
                DataMode::Normal""", """                warn!("Invalid DataMode: {}", value);
                DataMode::Low""", "bad")
m("s09-media-type", ["S09"], CMN, ["            0 => CallMediaType::Audio,", "            1 => CallMediaType::Video,"], ["            1 => CallMediaType::Audio,", "            0 => CallMediaType::Video,"], "bad")
m("s09-media-unknown", ["S09"], CMN, """            1 => CallMediaType::Video,
            _ => panic!("Unknown value: {}", value),""", """            _ => CallMediaType::Video,""", "bad")
m("s09-reason-order", ["S09"], CMN, ["    /// The call was ended because the remote hung up and permission was needed", "pub enum CallEndReason {"] if False else "pub enum CallEndReason {", "pub enum CallEndReason {\n    /// not used\n    Unused,", "bad")
m("s09-pixel", ["S09"], R + "webrtc/media.rs", ["            1 => Some(VideoPixelFormat::Nv12),", "            2 => Some(VideoPixelFormat::Rgba),"], ["            2 => Some(VideoPixelFormat::Nv12),", "            1 => Some(VideoPixelFormat::Rgba),"], "bad")
m("s09-ip6-order", ["S09"], NW, "u16::from_be_bytes([self.address[12], self.address[13]]),", "u16::from_be_bytes([self.address[13], self.address[12]]),", "bad")
m("s09-ip6-from", ["S09"], NW, "let [o6, o7] = segments[3].to_be_bytes();", "let [o6, o7] = segments[3].to_ne_bytes();", "bad")
m("s09-ip4-family", ["S09"], NW, """                RffiIp {
                    v6: false,""", """                RffiIp {
                    v6: octets[0] == 0,""", "bad")
m("s09-port-cut", ["S09"], SG, """        if port > (u16::MAX as u32) {
            return None;
        }
""", "", "bad")
m("s09-v6-le", ["S09"], SG, "IpAddr::V6(octets.into())", "IpAddr::V6(u128::from_le_bytes(octets).into())", "bad")
m("s09-suite", ["S09"], SD, "            Self::AeadAes128Gcm => 12,", "            Self::AeadAes128Gcm => 14,", "bad")
m("s09-codec", ["S09"], SD, ["                VP8 => Some(RffiVideoCodecType::Vp8),", "                VP9 => Some(RffiVideoCodecType::Vp9),"], ["                VP9 => Some(RffiVideoCodecType::Vp8),", "                VP8 => Some(RffiVideoCodecType::Vp9),"], "bad")
m("s09-codec-out", ["S09"], SD, "RffiVideoCodecType::Vp9 => protobuf::signaling::VideoCodecType::Vp9,", "RffiVideoCodecType::Vp9 => protobuf::signaling::VideoCodecType::Vp8,", "bad")
m("s09-joinstate", ["S09"], R + "core/group_call.rs", ["            JoinState::Pending(_) => 2,", "            JoinState::Joined(_) => 3,"], ["            JoinState::Pending(_) => 3,", "            JoinState::Joined(_) => 2,"], "bad")
m("s09-status-range", ["S09"], R + "lite/http.rs", ["            500..=599 => Self::ServerError,", "            600..=699 => Self::RequestError,"], ["            500..=600 => Self::ServerError,", "            601..=699 => Self::RequestError,"], "bad")
m("s09-severity", ["S09"], R + "webrtc/logging.rs", "        log::LevelFilter::Info => LogSeverity::Info,", "        log::LevelFilter::Info => LogSeverity::Verbose,", "bad")
m("s09-sink", ["S09"], R + "webrtc/logging.rs", "LogSeverity::Warn => warn!", "LogSeverity::Warn => error!", "bad")
m("s09-restrict", ["S09"], R + "lite/call_links/member_resolver.rs" if False else R + "lite/call_links.rs", "", "", "skip") if False else None
m("s09-proto-number", ["S09"], "protobuf/protobuf/rtp_data.proto", "optional uint64         seqnum = 4;", "optional uint64         seqnum = 6;", "bad")
m("s09-java", ["S09"], "src/android/api/org/signal/ringrtc/CallManager.java", "    BUSY_LOCALLY,\n", "", "bad") if False else None
m("s09-ref-table", ["S09"], SG, """        match value {
            0 => Some(HangupType::Normal),
            1 => Some(HangupType::AcceptedOnAnotherDevice),
            2 => Some(HangupType::DeclinedOnAnotherDevice),
            3 => Some(HangupType::BusyOnAnotherDevice),
            4 => Some(HangupType::NeedPermission),
            _ => None,
        }""", """        let typ = if value == HangupType::Normal as i32 {
            HangupType::Normal
        } else if value == HangupType::AcceptedOnAnotherDevice as i32 {
            HangupType::AcceptedOnAnotherDevice
        } else if value == HangupType::DeclinedOnAnotherDevice as i32 {
            HangupType::DeclinedOnAnotherDevice
        } else if value == 3 {
            HangupType::BusyOnAnotherDevice
        } else if value == 4 {
            HangupType::NeedPermission
        } else {
            return None;
        };
        Some(typ)""", "ok")
m("s09-ref-array", ["S09"], SG, """        match value {
            0 => Some(HangupType::Normal),
            1 => Some(HangupType::AcceptedOnAnotherDevice),
            2 => Some(HangupType::DeclinedOnAnotherDevice),
            3 => Some(HangupType::BusyOnAnotherDevice),
            4 => Some(HangupType::NeedPermission),
            _ => None,
        }""", """        [
            HangupType::Normal,
            HangupType::AcceptedOnAnotherDevice,
            HangupType::DeclinedOnAnotherDevice,
            HangupType::BusyOnAnotherDevice,
            HangupType::NeedPermission,
        ]
        .into_iter()
        .find(|typ| *typ as i32 == value)""", "ok")
m("s09-ref-ip", ["S09"], NW, """            IpAddr::V6(Ipv6Addr::new(
                u16::from_be_bytes([self.address[0], self.address[1]]),
                u16::from_be_bytes([self.address[2], self.address[3]]),
                u16::from_be_bytes([self.address[4], self.address[5]]),
                u16::from_be_bytes([self.address[6], self.address[7]]),
                u16::from_be_bytes([self.address[8], self.address[9]]),
                u16::from_be_bytes([self.address[10], self.address[11]]),
                u16::from_be_bytes([self.address[12], self.address[13]]),
                u16::from_be_bytes([self.address[14], self.address[15]]),
            ))""", """            IpAddr::V6(Ipv6Addr::from(self.address))""", "ok")
m("s09-ref-ip2", ["S09"], NW, """                let segments = ipv6.segments();
                let [o0, o1] = segments[0].to_be_bytes();
                let [o2, o3] = segments[1].to_be_bytes();
                let [o4, o5] = segments[2].to_be_bytes();
                let [o6, o7] = segments[3].to_be_bytes();
                let [o8, o9] = segments[4].to_be_bytes();
                let [o10, o11] = segments[5].to_be_bytes();
                let [o12, o13] = segments[6].to_be_bytes();
                let [o14, o15] = segments[7].to_be_bytes();
                RffiIp {
                    v6: true,
                    address: [
                        o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10, o11, o12, o13, o14, o15,
                    ],
                }""", """                RffiIp {
                    v6: true,
                    address: ipv6.octets(),
                }""", "ok")
m("s09-ref-ip4copy", ["S09"], NW, """                let octets = ipv4.octets();
                RffiIp {
                    v6: false,
                    address: [
                        octets[0], octets[1], octets[2], octets[3], 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
                        0, 0,
                    ],
                }""", """                let mut address = [0u8; 16];
                address[..4].copy_from_slice(&ipv4.octets());
                RffiIp { v6: false, address }""", "ok")
m("s09-ref-std", ["S09"], SG, """        let ip = if octets.len() == 4 {
            let octets: [u8; 4] = octets.try_into().unwrap();
            IpAddr::V4(octets.into())
        } else if octets.len() == 16 {
            let octets: [u8; 16] = octets.try_into().unwrap();
            IpAddr::V6(octets.into())
        } else {
            return None;
        };

        let port = self.port?;
        if port > (u16::MAX as u32) {
            return None;
        }
        let port = port as u16;
""", """        let ip = match octets.len() {
            4 => IpAddr::V4(<[u8; 4]>::try_from(octets).ok()?.into()),
            16 => IpAddr::V6(<[u8; 16]>::try_from(octets).ok()?.into()),
            _ => return None,
        };

        let port = u16::try_from(self.port?).ok()?;
""", "ok")
m("s09-ref-hangup", ["S09"], SG, """            Self::BusyOnAnotherDevice(other_device_id) => {
                (HangupType::BusyOnAnotherDevice, Some(*other_device_id))
            }
            Self::NeedPermission(other_device_id) => (HangupType::NeedPermission, *other_device_id),
        }""", """            Self::NeedPermission(other_device_id) => (HangupType::NeedPermission, *other_device_id),
            Self::BusyOnAnotherDevice(id) => {
                let device_id = Some(*id);
                (HangupType::BusyOnAnotherDevice, device_id)
            }
        }""", "ok")
m("s09-ref-status", ["S09"], R + "lite/http.rs", """        match code {
            100..=199 => Self::Informational,
            200..=299 => Self::Success,
            300..=399 => Self::Redirection,
            400..=499 => Self::ClientError,
            500..=599 => Self::ServerError,
            600..=699 => Self::RequestError,
            700..=799 => Self::ResponseError,
            _ => Self::Unknown,
        }""", """        match code / 100 {
            1 => Self::Informational,
            2 => Self::Success,
            3 => Self::Redirection,
            4 => Self::ClientError,
            5 => Self::ServerError,
            6 => Self::RequestError,
            7 => Self::ResponseError,
            _ => Self::Unknown,
        }""", "ok")
m("s09-ref-level", ["S09"], R + "webrtc/logging.rs", """        log::LevelFilter::Debug => LogSeverity::Verbose,
        log::LevelFilter::Trace => LogSeverity::Verbose,""", """        log::LevelFilter::Debug | log::LevelFilter::Trace => LogSeverity::Verbose,""", "ok")

# ---- S06
A = R + "webrtc/arc.rs"
P6 = R + "webrtc/ptr.rs"
m("s06-clone-noinc", ["S06"], A, "unsafe { Self::from_borrowed(self.as_borrowed()) }", "Self::from_owned(unsafe { webrtc::ptr::OwnedRc::from_ptr(self.owned.as_ptr()) })", "bad")
m("s06-take-keeps", ["S06"], A, "std::mem::replace(&mut self.owned, webrtc::ptr::OwnedRc::null())", "unsafe { webrtc::ptr::OwnedRc::from_ptr(self.owned.as_ptr()) }", "bad")
m("s06-into-clone", ["S06"], A, "        self.take_owned()\n", "        let other = self.clone();\n        unsafe { webrtc::ptr::OwnedRc::from_ptr(other.owned.as_ptr()) }\n", "bad")
m("s06-drop-if", ["S06"], A, "ref_count::dec(self.owned.take());", "if self.is_null() {\n            ref_count::dec(self.owned.take());\n        }", "bad")
m("s06-unique-nonull", ["S06"], P6, "        if !self.is_null() {\n            Delete::delete(self.take_owned())\n        }", "        Delete::delete(self.take_owned())", "bad")
m("s06-unique-into", ["S06"], P6, "    pub fn into_owned(mut self) -> Owned<T> {\n        self.0.take()", "    pub fn into_owned(self) -> Owned<T> {\n        unsafe { Owned::from_ptr(self.0.as_ptr()) }", "bad")
m("s06-owned-clone", ["S06"], P6, "impl<T> fmt::Debug for Owned<T> {", "impl<T> Clone for Owned<T> {\n    fn clone(&self) -> Self {\n        Self(self.0)\n    }\n}\n\nimpl<T> fmt::Debug for Owned<T> {", "bad")
m("s06-pc-order", ["S06"], R + "webrtc/peer_connection.rs", "        self.rffi = webrtc::Arc::null();\n\n        // Now it's safe to delete the _owner and", "        self._owner = None;\n        self.rffi = webrtc::Arc::null();\n\n        // Now it's safe to delete the _owner and", "bad")
m("s06-track-nodrop", ["S06"], R + "webrtc/media.rs", "        // Delete the rffi before the _owner.\n        self.rffi = webrtc::Arc::null();\n\n        // Now it's safe to delete the _owner.\n    }\n}\n\nimpl VideoTrack {", "        // Now it's safe to delete the _owner.\n    }\n}\n\nimpl VideoTrack {", "ok")
m("s06-track-order", ["S06"], [R + "webrtc/media.rs"] * 2, ["        // Delete the rffi before the _owner.\n        self.rffi = webrtc::Arc::null();\n\n        // Now it's safe to delete the _owner.\n    }\n}\n\nimpl VideoTrack {", "    rffi: webrtc::Arc<RffiVideoTrack>,\n    // We keep this around as an easy way to make sure the PeerConnectionFactory\n    // outlives the VideoTrack.\n    _owner: Option<webrtc::Arc<RffiPeerConnectionFactoryOwner>>,"], ["        // Now it's safe to delete the _owner.\n    }\n}\n\nimpl VideoTrack {", "    _owner: Option<webrtc::Arc<RffiPeerConnectionFactoryOwner>>,\n    rffi: webrtc::Arc<RffiVideoTrack>,"], "bad")
m("s06-frame-leak", ["S06"], R + "webrtc/peer_connection_observer.rs", "let frame = if !rffi_buffer.is_null() {", "let frame = if !rffi_buffer.is_null() && demux_id > 0 {", "bad")
m("s06-stream-borrow", ["S06"], R + "webrtc/peer_connection_observer.rs", "let stream = MediaStream::new(webrtc::Arc::from_owned(rffi_stream));", "let stream = MediaStream::new(unsafe { webrtc::Arc::from_borrowed(rffi_stream.borrow()) });", "bad")
m("s06-stream-null", ["S06"], R + "webrtc/peer_connection_observer.rs", "        drop(webrtc::Arc::from_owned(rffi_stream));\n", "", "bad")
m("s06-sdp-nofree", ["S06"], R + "webrtc/sdp_observer.rs", "        unsafe { libc::free(sdp.as_ptr() as *mut libc::c_void) };\n", "", "bad")
m("s06-csd-twice", ["S06"], R + "webrtc/sdp_observer.rs", "    let mut csd_observer = unsafe { Box::from_raw(csd_observer_ptr) };\n", "    let mut csd_observer = unsafe { Box::from_raw(csd_observer_ptr) };\n    if rffi.is_null() {\n        return unsafe { Box::from_raw(csd_observer_ptr) };\n    }\n", "bad")
m("s06-stats-lost", ["S06"], R + "webrtc/stats_observer.rs", "    let mut stats_observer = unsafe { Box::from_raw(stats_observer_ptr) };\n", "    let _ = stats_observer_ptr;\n    let mut stats_observer = Box::new(StatsObserver::new(call_id, stats_initial_offset));\n", "bad")
m("s06-adm-noref", ["S06"], R + "webrtc/ffi/audio_device_module.rs", "    let _adm = unsafe { Arc::from_raw(adm_borrowed) };", "    let _adm = adm_borrowed;", "bad")
m("s06-sender-leak", ["S06"], R + "webrtc/injectable_network.rs", "        let sender = unsafe { Box::from_raw(sender) };\n        drop(sender);", "        debug!(\"{:p}\", sender);", "bad")
m("s06-cname-dangling", ["S06"], R + "webrtc/injectable_network.rs", '''        let cname = CString::new(name).expect("Bad network interface name.");
        unsafe {
            Rust_InjectableNetwork_AddInterface(
                self.rffi,
                webrtc::ptr::Borrowed::from_ptr(cname.as_ptr()),''', '''        let cname = CString::new(name).expect("Bad network interface name.").as_ptr();
        unsafe {
            Rust_InjectableNetwork_AddInterface(
                self.rffi,
                webrtc::ptr::Borrowed::from_ptr(cname),''', "bad")
m("s06-hostname-dangling", ["S06"], R + "webrtc/peer_connection.rs", '''            let hostname_ptr = hostname_c
                .as_ref()
                .map_or''', '''            let hostname_ptr = hostname_c
                .map_or''', "bad")
m("s06-term-order", ["S06"], R + "core/connection.rs", "        webrtc.app_connection = None;\n\n", "", "bad")
m("s06-term-copy", ["S06"], R + "core/connection.rs", "match webrtc.connection_ptr.take() {", "match webrtc.connection_ptr.as_ref() {", "bad")
m("s06-ios-leak", ["S06"], R + "ios/ios_platform.rs", "            call_context.object,\n", "            call.call_context()?.object,\n", "bad")
m("s06-delegate-twice", ["S06"], R + "lite/http.rs", "            (self.release)(self.retained)", "            (self.release)(self.retained);\n            (self.release)(self.retained)", "bad")
m("s06-arcptr", ["S06"], R + "core/util.rs", "            let _ = Arc::into_raw(arc);", "            drop(arc);", "bad")
# refactorings
m("s06-ref-clone", ["S06"], A, "unsafe { Self::from_borrowed(self.as_borrowed()) }", "let b = self.owned.borrow();\n        Self::from_owned(unsafe { ref_count::inc(b) })", "ok")
m("s06-ref-drop", ["S06"], P6, "        if !self.is_null() {\n            Delete::delete(self.take_owned())\n        }", "        let owned = self.0.take();\n        if owned.is_null() {\n            return;\n        }\n        Delete::delete(owned);", "ok")
m("s06-ref-frame", ["S06"], R + "webrtc/peer_connection_observer.rs", '''        let frame = if !rffi_buffer.is_null() {
            Some(VideoFrame::from_buffer(
                metadata,
                webrtc::Arc::from_owned(rffi_buffer),
            ))
        } else {
            None
        };''', '''        let buffer = webrtc::Arc::from_owned(rffi_buffer);
        let frame = (!buffer.is_null()).then(|| VideoFrame::from_buffer(metadata, buffer));''', "ok")
m("s06-ref-csd", ["S06"], R + "webrtc/sdp_observer.rs", '''    let csd_observer_ptr = Box::into_raw(csd_observer);
    let rffi = webrtc::Arc::from_owned(unsafe {
        sdp::Rust_createCreateSessionDescriptionObserver(
            webrtc::ptr::Borrowed::from_ptr(csd_observer_ptr).to_void(),
            webrtc::ptr::Borrowed::from_ptr(CSD_OBSERVER_CBS_PTR).to_void(),
        )
    });
    let mut csd_observer = unsafe { Box::from_raw(csd_observer_ptr) };
''', '''    let raw = Box::into_raw(csd_observer);
    let lent = webrtc::ptr::Borrowed::from_ptr(raw).to_void();
    let callbacks = webrtc::ptr::Borrowed::from_ptr(CSD_OBSERVER_CBS_PTR).to_void();
    let owned = unsafe { sdp::Rust_createCreateSessionDescriptionObserver(lent, callbacks) };
    let mut csd_observer = unsafe { Box::from_raw(raw) };
    let rffi = webrtc::Arc::from_owned(owned);
''', "ok")
m("s06-ref-term", ["S06"], R + "core/connection.rs", '''        webrtc.incoming_media = None;

        // dispose of the stats observer
        webrtc.stats_observer = None;
''', '''        drop(webrtc.incoming_media.take());
        let observer = webrtc.stats_observer.take();
        drop(observer);
''', "ok")
m("s06-ref-pc", ["S06"], R + "webrtc/peer_connection.rs", "        self.rffi = webrtc::Arc::null();\n\n        // Now it's safe to delete the _owner and", "        drop(std::mem::replace(&mut self.rffi, webrtc::Arc::null()));\n\n        // Now it's safe to delete the _owner and", "ok")
m("s06-ref-cname", ["S06"], R + "webrtc/injectable_network.rs", '''        let cname = CString::new(name).expect("Bad network interface name.");
        unsafe {
            Rust_InjectableNetwork_AddInterface(
                self.rffi,
                webrtc::ptr::Borrowed::from_ptr(cname.as_ptr()),''', '''        let cname = CString::new(name).expect("Bad network interface name.");
        let name_ptr = webrtc::ptr::Borrowed::from_ptr(cname.as_ptr());
        unsafe {
            Rust_InjectableNetwork_AddInterface(
                self.rffi,
                name_ptr,''', "ok")

# --- S05
PO = R + "webrtc/peer_connection_observer.rs"
m("s05-encrypt-nonull-out", ["S05"], PO, "plaintext.is_null() || ciphertext_out.is_null() || ciphertext_size_out.is_null()", "plaintext.is_null() || ciphertext_size_out.is_null()", "bad")
m("s05-decrypt-nonull-size", ["S05"], PO, "|| plaintext_size_out.is_null()", "", "bad")
m("s05-encrypt-wrong-len", ["S05"], PO, "slice::from_raw_parts_mut(ciphertext_out, ciphertext_out_size)", "slice::from_raw_parts_mut(ciphertext_out, plaintext_size + 16)", "bad")
m("s05-encrypt-size-on-err", ["S05"], PO, """                unsafe {
                    *ciphertext_size_out = size;
                }
                true
            }
            Err(_e) => false,""", """                unsafe {
                    *ciphertext_size_out = size;
                }
                true
            }
            Err(_e) => {
                unsafe {
                    *ciphertext_size_out = 0;
                }
                false
            }""", "bad")
m("s05-as-slice-nonull", ["S05"], R + "lite/ffi.rs", """            if self.ptr.is_null() {
                return None;
            }
            let bytes""", "            let bytes", "bad")
m("s05-ptr-as-box", ["S05"], R + "core/util.rs", """pub unsafe fn ptr_as_box<T>(ptr: *mut T) -> Result<Box<T>> {
    if ptr.is_null() {""", """pub unsafe fn ptr_as_box<T>(ptr: *mut T) -> Result<Box<T>> {
    if !ptr.is_aligned() {""", "bad")
m("s05-stats-size-swap", ["S05"], R + "webrtc/stats_observer.rs", """                self.video_sender_statistics,
                self.video_sender_statistics_size as usize,""", """                self.video_sender_statistics,
                self.audio_sender_statistics_size as usize,""", "bad")
m("s05-stats-null", ["S05"], R + "webrtc/stats_observer.rs", """        if ptr.is_null() {
            &[]
        } else {
            unsafe { slice::from_raw_parts(ptr, len) }
        }""", """        if len == 0 {
            &[]
        } else {
            unsafe { slice::from_raw_parts(ptr, len) }
        }""", "bad")
m("s05-stats-null-early", ["S05"], R + "webrtc/stats_observer.rs", """        if ptr.is_null() {
            &[]
        } else {
            unsafe { slice::from_raw_parts(ptr, len) }
        }""", """        if len == 0 || ptr.is_null() {
            return &[];
        }
        let all = unsafe { slice::from_raw_parts(ptr, len) };
        all""", "ok")
m("s05-copy-full", ["S05"], R + "webrtc/audio_device_module_utils.rs", "let size = std::cmp::min(src.len(), max_size);", "let size = std::cmp::min(src.len(), dest_size);", "bad")
m("s05-copy-wrap", ["S05"], R + "webrtc/audio_device_module_utils.rs", """    let max_size = dest_size
        .checked_sub(1)
        .ok_or(anyhow!("no room for the nul terminator"))?;
""", "    let max_size = dest_size.wrapping_sub(1);\n", "bad")
m("s05-copy-if", ["S05"], R + "webrtc/audio_device_module_utils.rs", """    let max_size = dest_size
        .checked_sub(1)
        .ok_or(anyhow!("no room for the nul terminator"))?;
    let size = std::cmp::min(src.len(), max_size);
""", """    if dest_size == 0 {
        return Err(anyhow!("no room for the nul terminator"));
    }
    let mut size = src.len();
    if size > dest_size - 1 {
        size = dest_size - 1;
    }
""", "ok")
m("s05-salt-len", ["S05"], R + "webrtc/sdp_observer.rs", "salt_len: self.salt.len(),", "salt_len: self.key.len(),", "bad")
m("s05-cstr-null", ["S05"], R + "webrtc/ptr.rs", """        if self.is_null() {
            return String::new();
        }
""", "", "bad")
m("s05-from-cstr", ["S05"], R + "webrtc/sdp_observer.rs", "    if c.is_null() {\n        \"\".to_string()", "    if c == std::ptr::null() {\n        \"\".to_string()", "ok")
m("s05-route-unchecked", ["S05"], PO, "redact_string(unsafe { local_description.to_string_lossy() })", "redact_string(unsafe { std::ffi::CStr::from_ptr(local_description.as_ptr()) }.to_string_lossy())", "bad")
m("s05-array-count", ["S05"], R + "ios/api/call_manager_interface.rs", """            app_video_request_array.resolutions,
            app_video_request_array.count,""", """            app_video_request_array.resolutions,
            app_video_request_array.count + 1,""", "bad")
m("s05-rtp-null", ["S05"], R + "webrtc/rtp_observer.rs", "if payload_data.is_null() {", "if payload_size == 0 {", "bad")

# ---- S04
UT, AU = R + "core/util.rs", R + "webrtc/audio_device_module_utils.rs"
m("s04-no-ipv4", ["S04"], UT, "    string = redact_ipv4(string);\n", "", "bad")
m("s04-no-pwd", ["S04"], UT, "redact_ice_password(text.into())", "text.into()", "bad")
m("s04-ipv4-two-digits", ["S04"], UT, '"([0-9]{1,3}\\\\.){3,3}(x|[0-9]{1,3})")', '"([0-9]{1,3}\\\\.){3,3}(x|[0-9]{1,2})")', "bad")
m("s04-ipv6-lower", ["S04"], UT, "([0-9a-fA-F]{1,4}:){1,3}(:(x|[0-9a-fA-F]{1,4})){1,4}|", "([0-9a-fA-F]{1,4}:){1,3}(:(x|[0-9a-f]{1,4})){1,4}|", "bad")
m("s04-ipv6-dropped", ["S04"], UT, "        ([0-9a-fA-F]{1,4}:){1,2}(:(x|[0-9a-fA-F]{1,4})){1,5}|\\\n", "", "bad")
m("s04-foundation", ["S04"], UT, '"candidate:[0-9]+"', '"candidate:[0-9]{1,8}"', "bad")
m("s04-first-only", ["S04"], UT, "re.find_iter(text.as_bytes()) {", "re.find_iter(text.as_bytes()).take(1) {", "bad")
m("s04-piece-end", ["S04"], UT, "result.push_str(&text[end_of_previous_match..start]);", "result.push_str(&text[end_of_previous_match..end]);", "bad")
m("s04-piece-start", ["S04"], UT, "        end_of_previous_match = end;\n", "        end_of_previous_match = start;\n", "bad")
m("s04-pwd-first", ["S04"], UT, "for line in result[first_ice_line_idx..].iter_mut() {", "for line in result[first_ice_line_idx..].iter_mut().take(1) {", "bad")
m("s04-pwd-skip", ["S04"], UT, "for line in result[first_ice_line_idx..]", "for line in result[first_ice_line_idx + 1..]", "bad")
m("s04-pwd-starts", ["S04"], UT, '        if line.contains("ice-pwd") {', '        if line.starts_with("a=ice-pwd") {', "bad")
m("s04-prefix-8", ["S04"], AU, "s.chars().take(4).collect()", "s.chars().take(8).collect()", "bad")
m("s04-prefix-nonascii", ["S04"], AU, "s.chars().take(1).collect()", "s.chars().take(4).collect()", "bad")
m("s04-ice-raw", ["S04"], R + "webrtc/peer_connection.rs", 'info!("Remote ICE candidate: {}", redact_string(sdp));', 'info!("Remote ICE candidate: {}", sdp);', "bad")
m("s04-device-raw", ["S04"], R + "webrtc/audio_device_module.rs", "device.friendly_name().map(redact_for_logging),", "device.friendly_name(),", "bad")
m("s04-proof", ["S04"], R + "core/call_manager.rs", 'error!("Invalid membership proof");', 'error!("Invalid membership proof: {:?}", membership_proof);', "bad")
m("s04-ok-order", ["S04"], UT, "    string = redact_ipv6(string);\n    string = redact_ipv4(string);\n    redact_foundation(string)", "    string = redact_foundation(string);\n    string = redact_ipv6(string);\n    redact_ipv4(string)", "ok")
m("s04-ok-ipv4-wider", ["S04"], UT, '"([0-9]{1,3}\\\\.){3,3}(x|[0-9]{1,3})")', '"([0-9]+\\\\.){3,3}(x|[0-9]+)")', "ok")
m("s04-ok-pwd-map", ["S04"], UT, """    let mut result: Vec<_> = text.lines().collect();
    for line in result[first_ice_line_idx..].iter_mut() {
        // Redact entire line as needed to mask Ice Password.
        if line.contains("ice-pwd") {
            *line = "a=ice-pwd:[ REDACTED ]";
        }
    }
""", """    let _ = first_ice_line_idx;
    let result: Vec<_> = text
        .lines()
        .map(|line| {
            if line.contains("ice-pwd") {
                "a=ice-pwd:[ REDACTED ]"
            } else {
                line
            }
        })
        .collect();
""", "ok")
m("s04-ok-pieces", ["S04"], UT, """        let start = m.start();
        let end = m.end();
        debug_assert!(
            end_of_previous_match <= start,
            "should not produce overlapping results"
        );
        result.push_str(&text[end_of_previous_match..start]);
        result.push_str(replacement);
        end_of_previous_match = end;
""", """        let between = &text[end_of_previous_match..m.start()];
        result.push_str(between);
        result += replacement;
        end_of_previous_match = m.end();
""", "ok")
m("s04-ok-prefix", ["S04"], AU, """        let mut out: String = if s.is_ascii() {
            s.chars().take(4).collect()
        } else {
            s.chars().take(1).collect()
        };
""", """        let shown = if s.is_ascii() { 4 } else { 1 };
        let mut out: String = s.chars().take(shown).collect();
""", "ok")

# ---- S03
CLK = R + "lite/call_links.rs"
RK = R + "lite/call_links/root_key.rs"
B16 = R + "lite/call_links/base16.rs"
SI = R + "core/signaling.rs"
CRY = R + "core/crypto.rs"
GC = R + "core/group_call.rs"
MW = "mrp/src/window.rs"
MS = "mrp/src/stream.rs"
MM = "mrp/src/merge_buffer.rs"
m("s03-expiry-add", ["S03"], CLK, """            expiration: SystemTime::UNIX_EPOCH
                .checked_add(Duration::from_secs(deserialized.expiration_unix_timestamp))
                .unwrap_or_else(|| {
                    warn!("expiration of call link is not a representable time");
                    SystemTime::UNIX_EPOCH
                }),
""", """            expiration: SystemTime::UNIX_EPOCH
                + Duration::from_secs(deserialized.expiration_unix_timestamp),
""", "bad")
m("s03-short-name", ["S03"], RK, """        if encrypted.len() < nonce_len {
            return Err(FailedToDecrypt);
        }
        let (nonce, ciphertext)""", """        if encrypted.is_empty() {
            return Err(FailedToDecrypt);
        }
        let (nonce, ciphertext)""", "bad")
m("s03-padding-unwrap", ["S03"], RK, """            .rposition(|&b| b == Self::ENCRYPTION_PADDING_MARKER)
            .ok_or(FailedToDecrypt)?;
        plaintext.truncate(padding_marker_position);
        Ok(plaintext)""", """            .rposition(|&b| b == Self::ENCRYPTION_PADDING_MARKER)
            .expect("padded by the sender");
        plaintext.truncate(padding_marker_position);
        Ok(plaintext)""", "bad")
m("s03-padding-slice", ["S03"], RK, """        plaintext.truncate(padding_marker_position);
        Ok(plaintext)""", """        Ok(plaintext[..padding_marker_position + 2].to_vec())""", "bad")
m("s03-ip-16-or-more", ["S03"], SI, """        } else if octets.len() == 16 {
            let octets: [u8; 16] = octets.try_into().unwrap();""", """        } else if octets.len() >= 16 {
            let octets: [u8; 16] = octets.try_into().unwrap();""", "bad")
m("s03-ip-index", ["S03"], SI, """        let ip = if octets.len() == 4 {
            let octets: [u8; 4] = octets.try_into().unwrap();
            IpAddr::V4(octets.into())""", """        let ip = if octets.len() <= 4 {
            IpAddr::V4([octets[0], octets[1], octets[2], octets[3]].into())""", "bad")
m("s03-ok-ip-index", ["S03"], SI, """            let octets: [u8; 4] = octets.try_into().unwrap();
            IpAddr::V4(octets.into())""", """            IpAddr::V4([octets[0], octets[1], octets[2], octets[3]].into())""", "ok")
m("s03-port-unwrap", ["S03"], SI, """        let port = self.port?;
        if port > (u16::MAX as u32) {
            return None;
        }
        let port = port as u16;
""", """        let port = u16::try_from(self.port?).expect("a port has 16 bits");
""", "bad")
m("s03-ok-port", ["S03"], SI, """        let port = self.port?;
        if port > (u16::MAX as u32) {
            return None;
        }
        let port = port as u16;
""", """        let port = u16::try_from(self.port?).ok()?;
""", "ok")
m("s03-reader-tail", ["S03"], GC, """        let (last, rest) = self.data.split_last().ok_or(RingRtcError::BufferTooSmall)?;
        self.data = rest;
        Ok(*last)""", """        let last = self.data[self.data.len() - 1];
        self.data = &self.data[..self.data.len() - 1];
        Ok(last)""", "bad")
m("s03-reader-len", ["S03"], GC, """        if len > self.data.len() {
            return Err(RingRtcError::BufferTooSmall.into());
        }
        let (rest, read) = self.data.split_at(self.data.len() - len);""", """        if self.data.is_empty() {
            return Err(RingRtcError::BufferTooSmall.into());
        }
        let (rest, read) = self.data.split_at(self.data.len() - len);""", "bad")
m("s03-ok-reader-len", ["S03"], GC, """        if len > self.data.len() {
            return Err(RingRtcError::BufferTooSmall.into());
        }
        let (rest, read) = self.data.split_at(self.data.len() - len);
""", """        let at = self
            .data
            .len()
            .checked_sub(len)
            .ok_or(RingRtcError::BufferTooSmall)?;
        let (rest, read) = self.data.split_at(at);
""", "ok")
m("s03-base16-second-first", ["S03"], B16, """            let upper = ALPHABET
                .iter()
                .position(|b| b == first)
                .ok_or_else(|| identify_bad_char(&bytes))? as u8;

            let second = bytes.next().ok_or(DecodeError::OddLengthInput)?;
""", """            let second = bytes.next().ok_or(DecodeError::OddLengthInput)?;
            let upper = ALPHABET
                .iter()
                .position(|b| b == first)
                .ok_or_else(|| identify_bad_char(&bytes))? as u8;

""", "bad")
m("s03-base16-skip-more", ["S03"], B16, """                if !SKIP_ALPHABET.contains(first) {
                    let position""", """                if first.is_ascii_alphabetic() {
                    let position""", "bad")
m("s03-ok-window", ["S03"], MW, """        let num_to_drain = std::cmp::min(self.data.len(), num_to_drop);
""", """        let num_to_drain = std::cmp::min(self.capacity_limit(), num_to_drop);
""", "ok")
m("s03-ack-sub", ["S03"], MS, """        if received_ack_num < self.send_buffer.left_bounds() {
            return Ok(());
        }
        if received_ack_num >= self.send_buffer.left_bounds() {
            let old = received_ack_num - self.send_buffer.left_bounds();
            self.send_buffer.drop_front(old as usize);
        }
""", """        let old = received_ack_num - self.send_buffer.left_bounds();
        self.send_buffer.drop_front(old as usize);
""", "bad")
m("s03-merge-capacity", ["S03"], MS, """                } else if usize::try_from(num_packets).map_or(true, |num_packets| {
                    num_packets > self.receive_buffer.capacity_limit()
                }) {
                    return Err(MrpReceiveError::InvalidNumPackets(num_packets));
                } else {""", """                } else if num_packets == u32::MAX {
                    return Err(MrpReceiveError::InvalidNumPackets(num_packets));
                } else {""", "bad")
m("s03-merge-zero", ["S03"], MS, """                if num_packets <= 1 {
                    // treat""", """                if num_packets == 1 {
                    // treat""", "bad")
m("s03-ok-merge", ["S03"], MS, """                } else if usize::try_from(num_packets).map_or(true, |num_packets| {
                    num_packets > self.receive_buffer.capacity_limit()
                }) {
                    return""", """                } else if num_packets as usize > self.receive_buffer.capacity_limit() {
                    return""", "ok")
m("s03-mac-len", ["S03"], CRY, """        mac.safe_copy_from_slice(&hmac_result[..MAC_SIZE_BYTES])
            .unwrap();""", """        mac.safe_copy_from_slice(&hmac_result[..])
            .unwrap();""", "bad")
PCF = R + "webrtc/peer_connection.rs"
m("s03-ice-sdp", ["S03"], PCF, "let sdp_c = CString::new(sdp)?;", "let sdp_c = CString::new(sdp).expect(\"no NUL in an SDP\");", "bad")
m("s03-ice-hostname", ["S03"], PCF, "Some(CString::new(hostname)?)", "Some(CString::new(hostname).unwrap())", "bad")
m("s03-ice-pwd", ["S03"], R + "webrtc/sdp_observer.rs", """        server_srtp_key: &SrtpKey,
        rtp_demux_id: u32,
        rtp_demux_ids: &[u32],
    ) -> Result<Self> {
        let rffi_ice_ufrag = CString::new(ice_ufrag.as_bytes())?;
        let rffi_ice_pwd = CString::new(ice_pwd.as_bytes())?;""", """        server_srtp_key: &SrtpKey,
        rtp_demux_id: u32,
        rtp_demux_ids: &[u32],
    ) -> Result<Self> {
        let rffi_ice_ufrag = CString::new(ice_ufrag.as_bytes()).unwrap();
        let rffi_ice_pwd = CString::new(ice_pwd.as_bytes())?;""", "bad")
m("s03-sfu-demux", ["S03"], R + "lite/sfu.rs", """        if demux_id.is_none() {
            return Err("Missing required fields in PeekDeviceInfo".to_string());
        }

""", "", "bad")
m("s03-plaintext-min", ["S03"], GC, "ciphertext_size.saturating_sub(Self::FRAME_ENCRYPTION_FOOTER_LEN)", "ciphertext_size - Self::FRAME_ENCRYPTION_FOOTER_LEN", "bad")

CNF = R + "core/connection.rs"
CAF = R + "core/call.rs"
m("c13-order", ["C13"], CNF, """    hkdf_info.extend_from_slice(caller_identity_key);
    hkdf_info.extend_from_slice(callee_identity_key);""", """    hkdf_info.extend_from_slice(callee_identity_key);
    hkdf_info.extend_from_slice(caller_identity_key);""", "bad")
m("c13-unbound", ["C13"], CNF, """    hkdf_info.extend_from_slice(callee_identity_key);
""", "", "bad")
m("c13-contributory", ["C13"], CNF, """    if !shared_secret.was_contributory() {
        error!("remote secret was non-contributory, rejecting srtp negotiation");
        return Err(RingRtcError::InvalidRemoteSrtpKey.into());
    }
""", """    if !shared_secret.was_contributory() {
        error!("remote secret was non-contributory, rejecting srtp negotiation");
        if remote_public_key.as_bytes() == &[0u8; 32] {
            return Err(RingRtcError::InvalidRemoteSrtpKey.into());
        }
    }
""", "bad")
m("c13-shared-half", ["C13"], CNF, """        answer_key: SrtpKey {
            suite: SUITE,
            key: answer_key.to_vec(),
            salt: answer_salt.to_vec(),""", """        answer_key: SrtpKey {
            suite: SUITE,
            key: answer_key.to_vec(),
            salt: offer_salt.to_vec(),""", "bad")
m("c13-swap-in-child", ["C13"], CNF, """                let callee_identity_key = &received.sender_identity_key;
                let caller_identity_key = &received.receiver_identity_key;""", """                let caller_identity_key = &received.sender_identity_key;
                let callee_identity_key = &received.receiver_identity_key;""", "bad")
m("c13-child-half", ["C13"], CNF, """                offer.disable_dtls_and_set_srtp_key(&offer_key)?;
                answer.disable_dtls_and_set_srtp_key(&answer_key)?;""", """                offer.disable_dtls_and_set_srtp_key(&answer_key)?;
                answer.disable_dtls_and_set_srtp_key(&offer_key)?;""", "bad")
m("c13-lost-on-munge", ["C13"], CNF, """                // And we have to make sure to do this again since answer_from_v4 doesn't do it.
                if let Some(answer_key) = &answer_key {
                    answer.disable_dtls_and_set_srtp_key(answer_key)?;
                }
""", "", "bad")
m("c13-ignored-failure", ["C13"], CNF, """                    offer.disable_dtls_and_set_srtp_key(&offer_key)?;
                    Some(answer_key)""", """                    if offer.disable_dtls_and_set_srtp_key(&offer_key).is_err() {
                        warn!("could not set the offer key");
                    }
                    Some(answer_key)""", "bad")
m("c13-bad-key-continues", ["C13"], CNF, """                    let NegotiatedSrtpKeys {
                        offer_key,
                        answer_key,
                    } = negotiate_srtp_keys(
                        &local_secret,
                        &remote_public_key,
                        caller_identity_key,
                        callee_identity_key,
                    )?;
                    offer.disable_dtls_and_set_srtp_key(&offer_key)?;
                    Some(answer_key)""", """                    match negotiate_srtp_keys(
                        &local_secret,
                        &remote_public_key,
                        caller_identity_key,
                        callee_identity_key,
                    ) {
                        Ok(NegotiatedSrtpKeys {
                            offer_key,
                            answer_key,
                        }) => {
                            offer.disable_dtls_and_set_srtp_key(&offer_key)?;
                            Some(answer_key)
                        }
                        Err(_) => None,
                    }""", "bad")
m("c13-ok-info", ["C13"], CNF, """    let mut hkdf_info = Vec::with_capacity(
        hkdf_info_prefix.len() + caller_identity_key.len() + callee_identity_key.len(),
    );
    hkdf_info.extend_from_slice(hkdf_info_prefix.as_bytes());
    hkdf_info.extend_from_slice(caller_identity_key);
    hkdf_info.extend_from_slice(callee_identity_key);""", """    let hkdf_info = [
        hkdf_info_prefix.as_bytes(),
        caller_identity_key,
        callee_identity_key,
    ]
    .concat();""", "ok")
m("c13-ok-slices", ["C13"], CNF, """    let (offer_key, okm) = okm.split_at(KEY_SIZE);
    let (offer_salt, okm) = okm.split_at(SALT_SIZE);
    let (answer_key, okm) = okm.split_at(KEY_SIZE);
    let (answer_salt, _) = okm.split_at(SALT_SIZE);""", """    let offer_key = &okm[..KEY_SIZE];
    let offer_salt = &okm[KEY_SIZE..KEY_SIZE + SALT_SIZE];
    let second = &okm[KEY_SIZE + SALT_SIZE..];
    let answer_key = &second[..KEY_SIZE];
    let answer_salt = &second[KEY_SIZE..];""", "ok")
m("c13-ok-public", ["C13"], CNF, """    let remote_public_key = {
        let mut array = [0u8; 32];
        array
            .safe_copy_from_slice(remote_public_key)
            .map(|_| PublicKey::from(array))
    }
    .map_err(|_| RingRtcError::InvalidRemoteSrtpKey)?;
""", """    let bytes: [u8; 32] = remote_public_key
        .try_into()
        .map_err(|_| RingRtcError::InvalidRemoteSrtpKey)?;
    let remote_public_key = PublicKey::from(bytes);
""", "ok")
m("c13-ok-iflet", ["C13"], CNF, """            let answer_key = match remote_public_key {
                None => None,
                Some(remote_public_key) => {
                    let caller_identity_key = &received.sender_identity_key;
                    let callee_identity_key = &received.receiver_identity_key;
                    let NegotiatedSrtpKeys {
                        offer_key,
                        answer_key,
                    } = negotiate_srtp_keys(
                        &local_secret,
                        &remote_public_key,
                        caller_identity_key,
                        callee_identity_key,
                    )?;
                    offer.disable_dtls_and_set_srtp_key(&offer_key)?;
                    Some(answer_key)
                }
            };""", """            let keys = remote_public_key
                .as_deref()
                .map(|key| {
                    negotiate_srtp_keys(
                        &local_secret,
                        key,
                        &received.sender_identity_key,
                        &received.receiver_identity_key,
                    )
                })
                .transpose()?;
            if let Some(keys) = &keys {
                offer.disable_dtls_and_set_srtp_key(&keys.offer_key)?;
            }
            let answer_key = keys.map(|k| k.answer_key);""", "ok")
m("c13-parent-key", ["C13"], CNF, """            let (local_secret, local_public_key) = generate_local_secret_and_public_key()?;
            let v4_offer""", """            let (local_secret, _) = generate_local_secret_and_public_key()?;
            let (_, local_public_key) = generate_local_secret_and_public_key()?;
            let v4_offer""", "bad")
m("c13-ok-helper", ["C13"], CNF, ["""                let callee_identity_key = &received.sender_identity_key;
                let caller_identity_key = &received.receiver_identity_key;
                let NegotiatedSrtpKeys {
                    offer_key,
                    answer_key,
                } = negotiate_srtp_keys(
                    local_secret,
                    &remote_public_key,
                    caller_identity_key,
                    callee_identity_key,
                )?;
                offer.disable_dtls_and_set_srtp_key(&offer_key)?;
                answer.disable_dtls_and_set_srtp_key(&answer_key)?;
            }
""", """fn generate_local_secret_and_public_key() -> Result<(StaticSecret, PublicKey)> {"""], ["""                set_both(
                    local_secret,
                    &remote_public_key,
                    &received,
                    &mut offer,
                    &mut answer,
                )?;
            }
""", """fn set_both(
    secret: &StaticSecret,
    public: &[u8],
    received: &signaling::ReceivedAnswer,
    offer: &mut SessionDescription,
    answer: &mut SessionDescription,
) -> Result<()> {
    let keys = negotiate_srtp_keys(
        secret,
        public,
        &received.receiver_identity_key,
        &received.sender_identity_key,
    )?;
    answer.disable_dtls_and_set_srtp_key(&keys.answer_key)?;
    offer.disable_dtls_and_set_srtp_key(&keys.offer_key)
}

fn generate_local_secret_and_public_key() -> Result<(StaticSecret, PublicKey)> {"""], "ok")

m("g07-contributory", ["G07"], GC, "if !shared_secret.was_contributory() {", "if !shared_secret.was_contributory() && server_pub_key.as_bytes() == &[0; 32] {", "bad")
m("g07-unbound", ["G07"], GC, """                                b"Signal_Group_Call_20211105_SignallingDH_SRTPKey_KDF",
                                hkdf_extra_info,
""", """                                b"Signal_Group_Call_20211105_SignallingDH_SRTPKey_KDF",
""", "bad")
m("g07-again", ["G07"], GC, """            DheState::Negotiated { .. } | DheState::FailedToNegotiate { .. } => {
                warn!("Attempting to negotiated SRTP keys a second time.");
                self
            }""", """            DheState::Negotiated { .. } => {
                warn!("Attempting to negotiated SRTP keys a second time.");
                self
            }
            DheState::FailedToNegotiate { .. } => {
                warn!("Attempting to negotiated SRTP keys a second time.");
                DheState::NotYetStarted
            }""", "bad")

m("g07-failed-continues", ["G07"], GC, """                        error!("join() failed: {reason}");
                        Self::end(state, CallEndReason::FailedToNegotiatedSrtpKeys);
                        return;""", """                        error!("join() failed: {reason}");
                        return;""", "bad")
m("g07-halves", ["G07"], GC, "                salt: master_key_material[Self::KEY_LEN..][Self::SALT_LEN..][Self::KEY_LEN..]\n                    [..Self::SALT_LEN]", "                salt: master_key_material[Self::KEY_LEN..][Self::SALT_LEN..][Self::SALT_LEN..]\n                    [..Self::SALT_LEN]", "bad")
m("g07-swapped", ["G07"], GC, ["            &srtp_keys.client,\n            Some(local_demux_id),", "            &srtp_keys.server,\n            local_demux_id,"], ["            &srtp_keys.server,\n            Some(local_demux_id),", "            &srtp_keys.client,\n            local_demux_id,"], "bad")
m("g07-restart", ["G07"], GC, """                JoinState::Joining | JoinState::Pending(_) | JoinState::Joined(_) => {
                    warn!("Already attempted to join.");
                }""", """                JoinState::Joining | JoinState::Pending(_) | JoinState::Joined(_) => {
                    warn!("Already attempted to join.");
                    state.dhe_state = DheState::default();
                }""", "bad")
m("g07-other-secret", ["G07"], GC, "                        let client_pub_key = PublicKey::from(&client_secret);", "                        let client_pub_key =\n                            PublicKey::from(&EphemeralSecret::random_from_rng(OsRng));", "bad")
m("g07-ok-split", ["G07"], GC, """        Self {
            client: SrtpKey {
                suite: Self::SUITE,
                key: master_key_material[..Self::KEY_LEN].to_vec(),
                salt: master_key_material[Self::KEY_LEN..][..Self::SALT_LEN].to_vec(),
            },
            server: SrtpKey {
                suite: SrtpCryptoSuite::AeadAes128Gcm,
                key: master_key_material[Self::KEY_LEN..][Self::SALT_LEN..][..Self::KEY_LEN]
                    .to_vec(),
                salt: master_key_material[Self::KEY_LEN..][Self::SALT_LEN..][Self::KEY_LEN..]
                    [..Self::SALT_LEN]
                    .to_vec(),
            },
        }""", """        let (client, server) = master_key_material.split_at(Self::KEY_LEN + Self::SALT_LEN);
        let part = |bytes: &[u8]| SrtpKey {
            suite: Self::SUITE,
            key: bytes[..Self::KEY_LEN].to_vec(),
            salt: bytes[Self::KEY_LEN..].to_vec(),
        };
        Self {
            client: part(client),
            server: part(server),
        }""", "ok")
m("g07-ok-early", ["G07"], GC, """                let srtp_keys = match &state.dhe_state {
                    DheState::Negotiated { srtp_keys } => srtp_keys,
                    DheState::FailedToNegotiate { reason } => {
                        error!("join() failed: {reason}");
                        Self::end(state, CallEndReason::FailedToNegotiatedSrtpKeys);
                        return;
                    }
                    _ => {
                        Self::end(state, CallEndReason::FailedToNegotiatedSrtpKeys);
                        return;
                    }
                };
""", """                if let DheState::FailedToNegotiate { reason } = &state.dhe_state {
                    error!("join() failed: {reason}");
                }
                let DheState::Negotiated { srtp_keys } = &state.dhe_state else {
                    Self::end(state, CallEndReason::FailedToNegotiatedSrtpKeys);
                    return;
                };
""", "ok")
m("g07-ok-in-place", ["G07"], GC, "        *self = std::mem::take(self).negotiate(server_pub_key, hkdf_extra_info)", "        let before = std::mem::replace(self, DheState::NotYetStarted);\n        let after = before.negotiate(server_pub_key, hkdf_extra_info);\n        *self = after;", "ok")

SFU = R + "lite/sfu.rs"
CLK = R + "lite/call_links.rs"
HTP = R + "lite/http.rs"
m("t04-redirect", ["T04"], HTP, "            200..=299 => Self::Success,\n            300..=399 => Self::Redirection,", "            200..=399 => Self::Success,", "bad")
m("t04-300", ["T04"], HTP, "            200..=299 => Self::Success,\n            300..=399 => Self::Redirection,", "            200..=300 => Self::Success,\n            301..=399 => Self::Redirection,", "bad")
m("t04-not-error", ["T04"], HTP, "    if !response.status.is_success() {\n        return Err(response.status);", "    if response.status.is_error() {\n        return Err(response.status);", "bad")
m("t04-error-set", ["T04"], HTP, "            Self::ClientError | Self::ServerError | Self::RequestError | Self::ResponseError\n", "            Self::ClientError | Self::ServerError | Self::RequestError\n", "bad")
m("t04-unparsable", ["T04"], HTP, "        .map_err(|_| ResponseStatus::INVALID_RESPONSE_BODY_JSON)?;", "        .map_err(|_| response.status)?;", "bad")
m("t04-expired-swap", ["T04"], SFU, """        "expired" => Some(http::ResponseStatus::CALL_LINK_EXPIRED),
        "invalid" => Some(http::ResponseStatus::CALL_LINK_INVALID),""", """        "expired" | "invalid" => Some(http::ResponseStatus::CALL_LINK_INVALID),""", "bad")
m("t04-404-unknown", ["T04"], SFU, "                            Err(classify_not_found(body).unwrap_or(status))", "                            classify_not_found(body).map_or_else(|| Ok(PeekInfo::default()), Err)", "bad")
m("t04-404-empty", ["T04"], SFU, "                            .filter(|body| !body.is_empty())", "                            .filter(|body| !body.is_empty() && body.len() < 1024)", "bad")
m("t04-join-any-key", ["T04"], SFU, """    info!("sfu:Join(): ");

    if call_link_root_key.is_some_and(|root_key| !root_key.is_valid()) {""", """    info!("sfu:Join(): ");

    if admin_passkey.is_none() && call_link_root_key.is_some_and(|root_key| !root_key.is_valid()) {""", "bad")
m("t04-no-return", ["T04"], CLK, """    if root_key.is_valid() {
        result_callback(Err(http::ResponseStatus::CALL_LINK_ALREADY_CREATED));
        return;
    }
""", """    if root_key.is_valid() {
        info!("creating a call link again");
    }
""", "bad")
m("t04-delete-ignored", ["T04"], CLK, "            let result = http::parse_json_response::<Empty>(http_response.as_ref());\n            result_callback(result);", "            let result = match http_response.as_ref() {\n                Some(r) if r.status.is_success() => Ok(Empty {}),\n                other => http::parse_json_response::<Empty>(other),\n            };\n            result_callback(result);", "bad")
m("t04-create-epoch", ["T04"], CLK, "                        Err(_) => Err(http::ResponseStatus::REQUEST_FAILED),", "                        Err(_) => Ok(CallLinkState::from_serialized(response, &root_key)),", "bad")
m("t04-silent", ["T04"], CLK, """            let result = http::parse_json_response::<CallLinkResponse>(http_response.as_ref())
                .map(|response| CallLinkState::from_serialized(response, &root_key));
            result_callback(result);
        }),
    )
}

#[serde_as]""", """            let result = http::parse_json_response::<CallLinkResponse>(http_response.as_ref())
                .map(|response| CallLinkState::from_serialized(response, &root_key));
            if http_response.is_some() {
                result_callback(result);
            }
        }),
    )
}

#[serde_as]""", "bad")
m("t04-delegate-code", ["T04"], CLK, """                    error_status_code: status.code.into(),
                    value: Default::default(),""", """                    error_status_code: rtc_OptionalU16::default(),
                    value: Default::default(),""", "bad")
m("t04-ok-match", ["T04"], HTP, """    let response = response.ok_or(ResponseStatus::REQUEST_FAILED)?;
    if !response.status.is_success() {
        return Err(response.status);
    }
    let deserialized = serde_json::from_slice(&response.body)
        .map_err(|_| ResponseStatus::INVALID_RESPONSE_BODY_JSON)?;
    Ok(deserialized)""", """    match response {
        None => Err(ResponseStatus::REQUEST_FAILED),
        Some(response) if (200..300).contains(&response.status.code) => {
            match serde_json::from_slice(&response.body) {
                Ok(value) => Ok(value),
                Err(_) => Err(ResponseStatus::INVALID_RESPONSE_BODY_JSON),
            }
        }
        Some(response) => Err(response.status),
    }""", "ok")
m("t04-ok-guard", ["T04"], SFU, """    info!("sfu:Join(): ");

    if call_link_root_key.is_some_and(|root_key| !root_key.is_valid()) {
        result_callback(Err(http::ResponseStatus::CALL_LINK_INVALID));
        return;
    }
""", """    info!("sfu:Join(): ");

    match &call_link_root_key {
        Some(key) if !key.is_valid() => {
            return result_callback(Err(http::ResponseStatus::CALL_LINK_INVALID));
        }
        _ => {}
    }
""", "ok")
m("t04-ok-404", ["T04"], SFU, """                    Err(status) if status == http::ResponseStatus::GROUP_CALL_NOT_STARTED => {
                        if let Some(body) = http_response
                            .as_ref()
                            .map(|r| &r.body)
                            .filter(|body| !body.is_empty())
                        {
                            Err(classify_not_found(body).unwrap_or(status))
                        } else {
                            info!(
                                "Got group call peek result with device count = 0 (status code 404)"
                            );
                            Ok(PeekInfo::default())
                        }
                    }""", """                    Err(status) if status == http::ResponseStatus::GROUP_CALL_NOT_STARTED => {
                        match http_response.as_ref() {
                            Some(r) if !r.body.is_empty() => {
                                Err(classify_not_found(&r.body).unwrap_or(status))
                            }
                            _ => Ok(PeekInfo::default()),
                        }
                    }""", "ok")
m("t04-ok-finish", ["T04"], CLK, """            let result = http::parse_json_response::<Empty>(http_response.as_ref());
            result_callback(result);""", """            result_callback(http::parse_json_response(http_response.as_ref()));""", "ok")
m("c12-equal", ["C12"], R + "core/connection_fsm.rs", """                    warn!("Dropped remote sender status message because it arrived out of order.");
                };

                // If they are equal, we treat it as out of order as well.
                if seqnum <= last_seqnum {""", """                    warn!("Dropped remote sender status message because it arrived out of order.");
                };

                // If they are equal, we treat it as out of order as well.
                if seqnum < last_seqnum {""", "bad")
m("c12-not-kept", ["C12"], R + "core/connection_fsm.rs", """        self.last_remote_receiver_status = Some((seqnum, max_bitrate));
""", """        if changed {
            self.last_remote_receiver_status = Some((seqnum, max_bitrate));
        }
""", "bad")
m("c12-any-call", ["C12"], R + "core/connection_fsm.rs", """        if connection.call_id() != call_id {
            warn!("Remote connected for non-active call");
            return Ok(());
        }
""", """        if connection.call_id() != call_id {
            warn!("Remote connected for non-active call");
        }
""", "bad")
m("c12-same-number", ["C12"], R + "core/connection.rs", """            state.seqnum = Some(state.seqnum.unwrap_or(0) + 1);""", """            state.seqnum = Some(state.seqnum.map_or(1, |n| n.max(1)));""", "bad")
m("c12-own-id", ["C12"], R + "core/connection.rs", """                CallId::new(hangup.id()),
                signaling::Hangup::from""", """                self.call_id(),
                signaling::Hangup::from""", "bad")
m("c12-older", ["C12"], R + "core/connection.rs", """        if header.timestamp >= *last_received_rtp_data_timestamp {
            *last_received_rtp_data_timestamp = header.timestamp;""", """        if header.timestamp.wrapping_sub(*last_received_rtp_data_timestamp) < u32::MAX / 2 + 1 {
            *last_received_rtp_data_timestamp = header.timestamp;""", "bad")
m("c12-forget-part", ["C12"], R + "core/connection.rs", """                sharing_screen: updated.sharing_screen.or(previous_sharing_screen),""", """                sharing_screen: updated.sharing_screen.or(updated.video_enabled.and(previous_sharing_screen)),""", "bad")
m("c12-clear", ["C12"], R + "core/connection.rs", """            data.accepted = Some(accepted)
""", """            *data = protobuf::rtp_data::Message { seqnum: data.seqnum, ..Default::default() };
            data.accepted = Some(accepted)
""", "bad")
m("c12-caller-accepts", ["C12"], R + "core/connection.rs", """            if let CallDirection::Outgoing = self.direction() {
                self.inject_received_accepted""", """            if self.direction() == CallDirection::Outgoing || message.seqnum.is_some() {
                self.inject_received_accepted""", "bad")
m("c12-replay-cached", ["C12"], R + "core/connection_fsm.rs", """        if let Some((_, status)) = self.last_remote_sender_status {
            Self::handle_remote_sender_status_changed(&connection, status)?;
        }
        if connection""", """        if let Some((_, status)) = self.last_remote_sender_status.take() {
            Self::handle_remote_sender_status_changed(&connection, status)?;
        }
        if connection""", "bad")
m("c12-ok-match", ["C12"], R + "core/connection_fsm.rs", """        let changed = match self.last_remote_receiver_status {
            // This is the first sequence number
            None => true,
            Some((last_seqnum, last_max_bitrate)) => {""", """        let changed = match self.last_remote_receiver_status {
            // This is the first sequence number
            None => true,
            Some((last_seqnum, last_max_bitrate)) if last_seqnum < seqnum => {
                last_max_bitrate != max_bitrate
            }
            Some((last_seqnum, last_max_bitrate)) => {""", "ok")
m("c12-ok-helper", ["C12"], R + "core/connection_fsm.rs", ["""        if connection.call_id() != call_id {
            warn!("Remote hangup for non-active call");
            return Ok(());
        }
        if state""", """    fn handle_received_ice(
        &mut self,"""], ["""        if !Self::own_call(&connection, call_id) {
            return Ok(());
        }
        if state""", """    fn own_call(connection: &Connection<T>, call_id: CallId) -> bool {
        let own = connection.call_id() == call_id;
        if !own {
            warn!("Message for non-active call");
        }
        own
    }

    fn handle_received_ice(
        &mut self,"""], "ok")
m("c12-ok-send", ["C12"], R + "core/connection.rs", """            populate(&mut state);
            state.seqnum = Some(state.seqnum.unwrap_or(0) + 1);""", """            let next = state.seqnum.unwrap_or(0) + 1;
            populate(&mut state);
            state.seqnum = Some(next);""", "ok")
CFS = R + "core/connection_fsm.rs"
CLF = R + "core/call_fsm.rs"
CMG = R + "core/call_manager.rs"
m("c02-late-status", ["C02"], CFS, """        if state.terminating_or_terminated() {
            debug!("handle_event(): dropping event {} while terminating", event);
            return Ok(());
        }
""", """        if state.terminating_or_terminated()
            && !matches!(event, ConnectionEvent::IceNetworkRouteChanged(_))
        {
            debug!("handle_event(): dropping event {} while terminating", event);
            return Ok(());
        }
""", "bad")
m("c02-late-work", ["C02"], CFS, """                    if connection.terminating()? {
                        return Ok(());
                    }
                    connection.buffer_local_ice_candidates(candidates)""", """                    connection.buffer_local_ice_candidates(candidates)""", "bad")
m("c02-report-always", ["C02"], CNF, """        if *state != new_state {
            *state = new_state;
            self.notify_observer(ConnectionObserverEvent::StateChanged(new_state))?;
        }""", """        if *state != new_state || new_state == ConnectionState::ConnectedAndAccepted {
            *state = new_state;
            self.notify_observer(ConnectionObserverEvent::StateChanged(new_state))?;
        }""", "bad")
m("c02-reconnect", ["C02"], CFS, """            ConnectionState::ConnectedBeforeAccepted => {
                connection.set_state(ConnectionState::ConnectingBeforeAccepted)?;
            }""", """            ConnectionState::ConnectedBeforeAccepted => {
                connection.set_state(ConnectionState::ReconnectingAfterAccepted)?;
            }""", "bad")
m("c02-failed-any", ["C02"], CFS, """        if state.connecting_or_connected() {
            // For callee""", """        if state.connecting_or_connected() || state == ConnectionState::IceGathering {
            // For callee""", "bad")
m("c02-no-fsm", ["C02"], CNF, """        // Always start the FSM no matter what happened above because
        // close() relies on it running.
        self.start_fsm()?;
        result
    }

    // An outgoing child is responsible for:""", """        // Always start the FSM no matter what happened above because
        // close() relies on it running.
        if result.is_ok() {
            self.start_fsm()?;
        }
        result
    }

    // An outgoing child is responsible for:""", "bad")
m("c02-early-terminated", ["C02"], CNF, """        self.wait_for_terminate()?;

        self.set_state(ConnectionState::Terminated)?;

        // Stop the timer""", """        self.set_state(ConnectionState::Terminated)?;
        self.wait_for_terminate()?;

        // Stop the timer""", "bad")
m("c02-undrained", ["C02"], CFS, """        self.drain_worker_thread();
        self.drain_notify_thread();

        connection.notify""", """        self.drain_worker_thread();

        connection.notify""", "bad")
m("c02-ok-guard", ["C02"], CFS, """        if state.terminating_or_terminated() {
            debug!("handle_event(): dropping event {} while terminating", event);
            return Ok(());
        }

        match event {""", """        match event {
            event if state.terminating_or_terminated() => {
                debug!("handle_event(): dropping event {} while terminating", event);
                Ok(())
            }""", "ok")
m("c02-ok-state", ["C02"], CNF, """        if *state != new_state {
            *state = new_state;
            self.notify_observer(ConnectionObserverEvent::StateChanged(new_state))?;
        }""", """        if *state == new_state {
            return Ok(());
        }
        let _old = std::mem::replace(&mut *state, new_state);
        self.notify_observer(ConnectionObserverEvent::StateChanged(new_state))?;""", "ok")
m("c02-ok-failed", ["C02"], CFS, """            connection.set_state(ConnectionState::IceFailed)?;
        } else {
            self.unexpected_state(state, "IceFailed");
        };
        Ok(())
    }
""", """            return Self::give_up(&connection);
        }
        self.unexpected_state(state, "IceFailed");
        Ok(())
    }

    fn give_up(connection: &Connection<T>) -> Result<()> {
        connection.set_state(ConnectionState::IceFailed)
    }
""", "ok")
# ---- C01, C04, C05: the call state machine
m("c01-late-ice", ["C01"], CLF, """            CallEvent::Synchronize(sync) => return self.handle_synchronize(call, sync),
            _ => {}
        }
""", """            CallEvent::Synchronize(sync) => return self.handle_synchronize(call, sync),
            CallEvent::InternalError(error) => return self.handle_internal_error(call, error),
            _ => {}
        }
""", "bad")
m("c01-terminated-only", ["C01"], CLF, """        if state.terminating_or_terminated() {
            debug!("handle_event(): dropping""", """        if state == CallState::Terminated {
            debug!("handle_event(): dropping""", "bad")
m("c01-accept-twice", ["C01"], CMN, """            CallState::ConnectedBeforeAccepted => true,

            // Already accepted, so can't be accepted again.
            CallState::ConnectedAndAccepted => false,
            CallState::ReconnectingAfterAccepted => false,
            // Terminating, so can't be accepted""", """            CallState::ConnectedBeforeAccepted => true,

            // Already accepted, so can't be accepted again.
            CallState::ConnectedAndAccepted => false,
            CallState::ReconnectingAfterAccepted => true,
            // Terminating, so can't be accepted""", "bad")
m("c01-accept-work", ["C01"], CLF, """            self.schedule_work_until_terminating(
                call,
                "Processing local accept request failed",""", """            self.schedule_work_even_when_terminating(
                call,
                "Processing local accept request failed",""", "bad")
m("c01-timeout-late", ["C01"], CLF, """        if !state.active() {
            self.schedule_work_even""", """        if !state.accepted() {
            self.schedule_work_even""", "bad")
m("c01-ice-reconnecting", ["C01"], CMN, """            CallState::ConnectedAndAccepted => true,
            CallState::ReconnectingAfterAccepted => true,

            // No point in ICE""", """            CallState::ConnectedAndAccepted => true,
            CallState::ReconnectingAfterAccepted => false,

            // No point in ICE""", "bad")
m("c01-mark-late", ["C01"], CAF, """        self.set_state(CallState::Terminating)?;
        self.inject_event(CallEvent::SendHangupViaRtpDataToAll(hangup))""", """        self.inject_event(CallEvent::SendHangupViaRtpDataToAll(hangup))?;
        self.set_state(CallState::Terminating)""", "bad")
m("c01-terminated-early", ["C01"], CLF, """        self.drain_worker_thread();
        self.drain_notify_thread();

        call.set_state(CallState::Terminated)?;""", """        call.set_state(CallState::Terminated)?;
        self.drain_worker_thread();
        self.drain_notify_thread();
""", "bad")
m("c01-reconnected-untold", ["C01"], CLF, """                            call.set_state(CallState::ConnectedAndAccepted)?;
                            self.notify_application(call, ApplicationEvent::Reconnected)""", """                            call.set_state(CallState::ConnectedAndAccepted)?;
                            if call.active_connection().is_ok() {
                                self.notify_application(call, ApplicationEvent::Reconnected)
                            }""", "bad")
m("c01-ok-drop-first", ["C01", "C04", "C05"], CLF, """        match event {
            CallEvent::StartCall => self.handle_start_call(call, state),""", """        let starts = matches!(event, CallEvent::StartCall);
        if starts {
            return self.handle_start_call(call, state);
        }
        match event {
            CallEvent::StartCall => Ok(()),""", "ok")
m("c01-ok-terminating", ["C01", "C04", "C05"], CMN, """    pub fn terminating_or_terminated(self) -> bool {
        match self {
            CallState::NotYetStarted => false,
            CallState::WaitingToProceed => false,
            CallState::ConnectingBeforeAccepted => false,
            CallState::ConnectingAfterAccepted => false,
            CallState::ConnectedBeforeAccepted => false,
            CallState::ConnectedAndAccepted => false,
            CallState::ReconnectingAfterAccepted => false,

            CallState::Terminating => true,
            CallState::Terminated => true,
        }
    }""", """    pub fn terminating_or_terminated(self) -> bool {
        self == CallState::Terminating || matches!(self, CallState::Terminated)
    }""", "ok")
m("c01-ok-accept-helper", ["C01", "C04", "C05"], CLF, """        if state.can_be_accepted_locally() {
            call.set_state(CallState::ConnectedAndAccepted)?;
            self.schedule_work_until_terminating(
                call,
                "Processing local accept request failed",
                move |call| call.accept_locally(),
            );
        } else {
            self.unexpected_state(state, "AcceptCall");
        }
        Ok(())
    }
""", """        if !state.can_be_accepted_locally() {
            self.unexpected_state(state, "AcceptCall");
            return Ok(());
        }
        self.accept_now(call)
    }

    fn accept_now(&mut self, call: Call<T>) -> Result<()> {
        let next = CallState::ConnectedAndAccepted;
        call.set_state(next)?;
        self.schedule_work_until_terminating(
            call,
            "Processing local accept request failed",
            |call| call.accept_locally(),
        );
        Ok(())
    }
""", "ok")
m("c04-echo-own", ["C04"], CLF, """        if direction == CallDirection::Incoming && Some(call.local_device_id()) == hangup_device_id
        {""", """        if direction == CallDirection::Incoming
            && state != CallState::ConnectedBeforeAccepted
            && Some(call.local_device_id()) == hangup_device_id
        {""", "bad")
m("c04-any-device", ["C04"], CLF, """        if let Ok(active_device_id) = call.active_device_id()
            && sender_device_id != active_device_id
        {
            info!(
                "handle_received_hangup(): Ignoring hangup message from devices""", """        if let Ok(active_device_id) = call.active_device_id()
            && sender_device_id != active_device_id
            && hangup_type != signaling::HangupType::Normal
        {
            info!(
                "handle_received_hangup(): Ignoring hangup message from devices""", "bad")
m("c04-no-spread-early", ["C04"], CMN, """            CallState::WaitingToProceed => true,
            CallState::ConnectingBeforeAccepted => true,
            CallState::ConnectedBeforeAccepted => true,

            // Don't propagate""", """            CallState::WaitingToProceed => false,
            CallState::ConnectingBeforeAccepted => true,
            CallState::ConnectedBeforeAccepted => true,

            // Don't propagate""", "bad")
m("c04-exclude-zero", ["C04"], CLF, """signaling::Hangup::NeedPermission(Some(sender_device_id)),""", """signaling::Hangup::NeedPermission(None),""", "bad")
m("c04-reason-swapped", ["C04"], CLF, """end_reason_without_propagation(CallEndReason::RemoteHangupDeclined)""", """end_reason_without_propagation(CallEndReason::RemoteHangupBusy)""", "bad")
m("c04-except-other", ["C04"], CAF, """            if excluded_remote_device_id != remote_device_id {
                info!(""", """            if excluded_remote_device_id > remote_device_id {
                info!(""", "bad")
m("c04-first-only", ["C04"], CAF, """                    "send_hangup_via_rtp_data_to_all_except(): included remote_device_id: {}",
                    remote_device_id
                );
                connection.inject_send_hangup_via_rtp_data(hangup)?;""", """                    "send_hangup_via_rtp_data_to_all_except(): included remote_device_id: {}",
                    remote_device_id
                );
                connection.inject_send_hangup_via_rtp_data(hangup)?;
                if remote_device_id > excluded_remote_device_id {
                    break;
                }""", "bad")
m("c04-busy-zero", ["C04"], CMG, """                .send_hangup_via_rtp_data_and_signaling_to_all_except(hangup, sender_device_id)?;

            // Handle the normal""", """                .send_hangup_via_rtp_data_and_signaling_to_all_except(hangup, 1)?;

            // Handle the normal""", "bad")
m("c04-remote-any", ["C04"], CMG, """        info!("remote_hangup(): call_id: {}", call_id);

        if self.call_is_active(call_id)? {""", """        info!("remote_hangup(): call_id: {}", call_id);

        if self.call_is_active(call_id)? || end_reason_override.is_some() {""", "bad")
m("c04-ok-iter", ["C04"], CAF, """        for connection in connection_map.values_mut() {
            let remote_device_id = connection.remote_device_id();
            if excluded_remote_device_id != remote_device_id {
                info!(
                    "send_hangup_via_rtp_data_to_all_except(): included remote_device_id: {}",
                    remote_device_id
                );
                connection.inject_send_hangup_via_rtp_data(hangup)?;
            }
        }""", """        for (_, connection) in connection_map.iter_mut() {
            if connection.remote_device_id() == excluded_remote_device_id {
                continue;
            }
            connection.inject_send_hangup_via_rtp_data(hangup)?;
        }""", "ok")
m("c04-ok-match", ["C04", "C01", "C05"], CLF, """            (signaling::HangupType::AcceptedOnAnotherDevice, CallDirection::Outgoing) => unexpected,
            (signaling::HangupType::DeclinedOnAnotherDevice, CallDirection::Outgoing) => unexpected,
            (signaling::HangupType::BusyOnAnotherDevice, CallDirection::Outgoing) => unexpected,""", """            (_, CallDirection::Outgoing) => unexpected,""", "ok")
m("c05-second-accept", ["C05"], CAF, """            Some(v) => return Err(RingRtcError::ActiveDeviceIdAlreadySet(v).into()),
            None => *active_device_id = Some(remote_device),""", """            Some(v) if v <= remote_device => {
                return Err(RingRtcError::ActiveDeviceIdAlreadySet(v).into());
            }
            _ => *active_device_id = Some(remote_device),""", "bad")
m("c05-status-any", ["C05"], CLF, """                if call.active_device_id()? == remote_device_id {
                            call.set_state(CallState::ReconnectingAfterAccepted)?;""", """                if call.active_device_id().is_ok() {
                            call.set_state(CallState::ReconnectingAfterAccepted)?;""", "bad")
m("c05-hangup-before", ["C05"], CLF, """                call.send_hangup_via_signaling_to_all(hangup)?;
                // This blocks.
                call.terminate_connections_except_accepted(accepted_remote_device_id)?;
                Ok(())""", """                // This blocks.
                call.terminate_connections_except_accepted(accepted_remote_device_id)?;
                Ok(())""", "bad")
m("c05-keep-smaller", ["C05"], CAF, """            if connection.remote_device_id() != accepted_device_id {
                // blocks""", """            if connection.remote_device_id() > accepted_device_id {
                // blocks""", "bad")
m("c05-ice-failed-last", ["C05"], CAF, """            if connection_map.len() == 1 {
                // Only one""", """            if connection_map.len() <= 2 {
                // Only one""", "bad")
m("c05-ice-failed-other", ["C05"], CAF, """            if active_device_id == remote_device {
                // The active connection failed""", """            if active_device_id == remote_device || self.direction == CallDirection::Outgoing {
                // The active connection failed""", "bad")
m("c05-ok-retain", ["C05"], CAF, """            if connection.remote_device_id() != accepted_device_id {
                // blocks as connection FSM shutsdown
                if let Err(e) = connection.terminate() {
                    error!("Error when closing {}", e)
                }
            }

            connection.remote_device_id() == accepted_device_id
        });""", """            let keep = connection.remote_device_id() == accepted_device_id;
            if !keep && let Err(e) = connection.terminate() {
                error!("Error when closing {}", e)
            }
            keep
        });""", "ok")
m("c05-ok-merged", ["C05", "C01"], CLF, """                        self.handle_remotely_accepted_connection(call.clone(), remote_device_id)?;
                        self.activate_remotely_accepted_connection(call);""", """                        let activated = call.clone();
                        self.handle_remotely_accepted_connection(call, remote_device_id)?;
                        self.activate_remotely_accepted_connection(activated);""", "ok")
# ---- C03: media only after acceptance
m("c03-early-recording", ["C03"], CNF, """            peer_connection.receive_rtp(RTP_DATA_PAYLOAD_TYPE, true)?;
""", """            peer_connection.receive_rtp(RTP_DATA_PAYLOAD_TYPE, true)?;
            peer_connection.set_audio_recording_enabled(self.call_config.enable_tcc_audio);
""", "bad")
m("c03-early-in", ["C03"], CNF, """            peer_connection.receive_rtp(RTP_DATA_PAYLOAD_TYPE, false)?;""", """            peer_connection.receive_rtp(RTP_DATA_PAYLOAD_TYPE, answer_key.is_some())?;""", "bad")
m("c03-connect-stream", ["C03"], CNF, """            call.create_incoming_media(self, stream)?
        };
        self.set_incoming_media(incoming_media)
""", """            call.create_incoming_media(self, stream)?
        };
        if self.state()? == ConnectionState::ConnectedBeforeAccepted {
            self.call()?.connect_incoming_media(&incoming_media)?;
        }
        self.set_incoming_media(incoming_media)
""", "bad")
m("c03-enable-first", ["C03"], CAF, """        connection.inject_accept()?;
        connection.enable_media()?;""", """        connection.enable_media()?;
        connection.inject_accept()?;""", "bad")
m("c03-activate-early", ["C03", "C05"], CLF, """                        self.handle_remotely_accepted_connection(call, remote_device_id)?;
                        // Don't activate""", """                        self.handle_remotely_accepted_connection(call.clone(), remote_device_id)?;
                        self.activate_remotely_accepted_connection(call);
                        // Don't activate""", "bad")
m("c03-accept-error", ["C03"], CAF, """        let connection = self.active_connection()?;
        connection.enable_media()?;""", """        let connection = self.active_connection()?;
        if let Err(e) = connection.enable_media() {
            warn!("accept_remotely(): {}", e);
        }""", "bad")
m("c03-ok-helper", ["C03"], CAF, """        connection.inject_accept()?;
        connection.enable_media()?;
        connection.start_tick()?;
        self.notify_application(ApplicationEvent::LocalAccepted)?;
        Ok(())
    }
""", """        connection.inject_accept()?;
        Self::activate(&connection)?;
        self.notify_application(ApplicationEvent::LocalAccepted)
    }

    fn activate(connection: &Connection<T>) -> Result<()> {
        connection
            .enable_media()
            .and_then(|_| connection.start_tick())
    }
""", "ok")
m("c03-ok-switches", ["C03"], CNF, """        pc.set_audio_playout_enabled(true);
        pc.set_incoming_media_enabled(true);
        pc.set_outgoing_media_enabled(true);
        pc.set_audio_recording_enabled(true);
""", """        let on = true;
        for f in [
            PeerConnection::set_audio_playout_enabled,
            PeerConnection::set_incoming_media_enabled,
            PeerConnection::set_outgoing_media_enabled,
            PeerConnection::set_audio_recording_enabled,
        ] {
            f(pc, on);
        }
""", "ok")
m("c10-stale-busy", ["C10"], CMG, ["                                if message_age > MAX_MESSAGE_AGE {\n                                    group_call::RingUpdate::ExpiredRequest\n                                } else if *self.busy.lock()? {", "                                    group_call::RingUpdate::BusyLocally\n                                } else {"],
  ["                                if *self.busy.lock()? {", "                                    group_call::RingUpdate::BusyLocally\n                                } else if message_age > MAX_MESSAGE_AGE {\n                                    group_call::RingUpdate::ExpiredRequest\n                                } else {"], "bad")
m("c10-opaque-no-age", ["C10"], CMG, "            if message_age > MAX_MESSAGE_AGE {\n                return Err(OpaqueRingValidationError::Expired);\n            }\n", "            let _ = message_age;\n", "bad")
m("c10-offer-half-age", ["C10"], CMG, "    if received.age > MAX_MESSAGE_AGE {", "    if received.age > MAX_MESSAGE_AGE && received.offer.call_media_type != CallMediaType::Video {", "bad")
m("c10-stale-after-busy", ["C10"], CMG, ["        if let Err(e) = validate_offer(&received) {\n", "        let collision = match (active_call_id, &active_call, *busy) {\n            (None, None, false) => ReceivedOfferCollision::None,"],
  ["        if self.call_active()?\n            && let Err(e) = validate_offer(&received)\n        {\n", "        let collision = match (active_call_id, &active_call, *busy) {\n            (None, None, false) => ReceivedOfferCollision::None,"], "bad")
m("c10-age-dropped", ["C10"], "src/rust/src/android/call_manager.rs", "            age: Duration::from_secs(age_sec),", "            age: Duration::from_secs(age_sec % 60),", "bad")
m("c10-other-users-answer", ["C10"], CMG, "if self_uuid.as_ref() != Some(&sender_uuid) {", "if self_uuid.is_some() && self_uuid.as_ref() != Some(&sender_uuid) && sender_uuid.len() != 16 {", "bad")
m("c10-ring-cancel-any", ["C10"], CMG, "                                    group_id,\n                                    Some(&sender_uuid),\n                                    ring_id.into(),\n                                )?;\n                                group_call::RingUpdate::CancelledByRinger", "                                    group_id,\n                                    None,\n                                    ring_id.into(),\n                                )?;\n                                group_call::RingUpdate::CancelledByRinger", "bad")
m("c10-ok-shape", ["C10"], CMG, ["    if received.age > MAX_MESSAGE_AGE {\n        return Err(OfferValidationError::Expired);\n    }\n    Ok(())", "                                if message_age > MAX_MESSAGE_AGE {\n                                    group_call::RingUpdate::ExpiredRequest\n                                } else if"],
  ["    let recent = received.age <= MAX_MESSAGE_AGE;\n    if recent {\n        Ok(())\n    } else {\n        Err(OfferValidationError::Expired)\n    }", "                                let stale = MAX_MESSAGE_AGE < message_age;\n                                if stale {\n                                    group_call::RingUpdate::ExpiredRequest\n                                } else if"], "ok")
m("c08-swap", ["C08"], CMG, ["Ordering::Greater => {\n                info!(\"Glare winner, keeping the active call\");\n                ReceivedOfferCollision::GlareWinner", "Ordering::Less => {\n                info!(\"Glare loser, ending the active call\");\n                ReceivedOfferCollision::GlareLoser"],
  ["Ordering::Greater => {\n                info!(\"Glare winner, keeping the active call\");\n                ReceivedOfferCollision::GlareLoser", "Ordering::Less => {\n                info!(\"Glare loser, ending the active call\");\n                ReceivedOfferCollision::GlareWinner"], "bad")
m("c08-signed-ids", ["C08"], CMG, "            .as_u64()\n            .cmp(&incoming_call_id.as_u64())", "            .as_u64()\n            .cast_signed()\n            .cmp(&incoming_call_id.as_u64().cast_signed())", "bad")
m("c08-equal-wins", ["C08"], CMG, "                warn!(\"Glare, unexpected call_id match!\");\n                ReceivedOfferCollision::GlareDoubleLoser", "                warn!(\"Glare, unexpected call_id match!\");\n                ReceivedOfferCollision::GlareWinner", "bad")
m("c08-recall-early", ["C08"], CMG, "if active_call_state >= CallState::ConnectedAndAccepted {", "if active_call_state >= CallState::ConnectedBeforeAccepted {", "bad")
m("c08-recall-hangup", ["C08"], CMG, "ActiveCallAction::TerminateWithoutSendingHangup(CallEndReason::RemoteReCall)", "ActiveCallAction::TerminateAndSendHangup(CallEndReason::RemoteReCall)", "bad")
m("c08-any-device", ["C08"], CMG, "if received.sender_device_id == active_device_id {", "if received.sender_device_id == active_device_id || active_call_state < CallState::ConnectedAndAccepted {", "bad")
m("c08-busy-kept", ["C08", "C07"], CMG, "                self.clear_active_call()?;\n                *busy = false;\n                self.terminate_call(active_call.unwrap(), None, Some(reason))?;", "                self.clear_active_call()?;\n                self.terminate_call(active_call.unwrap(), None, Some(reason))?;", "bad")
m("c08-ok-flat", ["C08", "C07", "C10", "C06"], CMG, ["        let glare_tiebreaker = || match active_call\n            .call_id()\n            .as_u64()\n            .cmp(&incoming_call_id.as_u64())\n        {\n            Ordering::Greater => {", "            Ordering::Less => {\n                info!(\"Glare loser, ending the active call\");", "            Ordering::Equal => {\n                warn!(\"Glare, unexpected"],
  ["        let mine = active_call.call_id().as_u64();\n        let theirs = incoming_call_id.as_u64();\n        let glare_tiebreaker = || match (theirs < mine, theirs == mine) {\n            (true, _) => {", "            (false, false) => {\n                info!(\"Glare loser, ending the active call\");", "            (false, true) => {\n                warn!(\"Glare, unexpected"], "ok")
m("c07-not-busy", ["C07"], CMG, "                    *busy = true;\n                    *active_call_id = Some(call_id);\n                    call.start_timeout_timer", "                    *active_call_id = Some(call_id);\n                    call.start_timeout_timer", "bad")
m("c07-unchecked-busy", ["C07"], CMG, "        if *busy {\n            Err(RingRtcError::CallManagerIsBusy.into())\n        } else {\n            let mut active_call_id", "        if *busy && self.call_active()? {\n            Err(RingRtcError::CallManagerIsBusy.into())\n        } else {\n            let mut active_call_id", "bad")
m("c07-release-any", ["C07"], CMG, "        if *active_call_id != Some(call_id) {\n            info!(\"release_active_call", "        if active_call_id.is_none() {\n            info!(\"release_active_call", "bad")
m("c07-release-half", ["C07"], CMG, "        *active_call_id = None;\n        *busy = false;\n        Ok(true)", "        *active_call_id = None;\n        if self.call_by_call_id.lock()?.len() <= 1 {\n            *busy = false;\n        }\n        Ok(true)", "bad")
m("c07-end-unreleased", ["C07"], CMG, "        if !self.release_active_call(call_id)? {\n            return Ok(());\n        }\n\n        let hangup", "        if send_hangup && !self.release_active_call(call_id)? {\n            return Ok(());\n        }\n\n        let hangup", "bad")
m("c07-end-twice", ["C07"], CMG, "        if !self.release_active_call(active_call.call_id())? {\n            return Ok(());\n        }\n        self.terminate_call", "        let _ = self.release_active_call(active_call.call_id())?;\n        self.terminate_call", "bad")
m("c07-join-unbusy", ["C07"], GCR, "                if *busy {\n                    info!(\"Call Manager is busy with another call\");\n                    false", "                if *busy && !state.remote_devices.is_empty() {\n                    info!(\"Call Manager is busy with another call\");\n                    false", "bad")
m("c07-leave-kept", ["C07"], GCR, "        Self::release_busy(state);\n        Self::set_join_state_and_notify_observer(state, JoinState::NotJoined(None));\n        state.next_heartbeat_time", "        if matches!(state.join_state, JoinState::Joined(_)) {\n            Self::release_busy(state);\n        }\n        Self::set_join_state_and_notify_observer(state, JoinState::NotJoined(None));\n        state.next_heartbeat_time", "bad")
m("c07-ok-take", ["C07","C11"], CMG, "        if *active_call_id != Some(call_id) {\n            info!(\"release_active_call(): skipping, not the active call\");\n            return Ok(false);\n        }\n        *active_call_id = None;\n        *busy = false;\n        Ok(true)", "        let is_active = *active_call_id == Some(call_id);\n        if is_active {\n            *busy = false;\n            *active_call_id = None;\n        }\n        Ok(is_active)", "ok")
m("c07-ok-helper", ["C07"], GCR, "                if *busy {\n                    info!(\"Call Manager is busy with another call\");\n                    false\n                } else {\n                    *busy = true;\n", "                let free = !*busy;\n                if !free {\n                    info!(\"Call Manager is busy with another call\");\n                    false\n                } else {\n                    *busy = true;\n", "ok")
m("c11-trim-first", ["C11"], CMG, "        if let Err(err) = self.trim_messages(call_id) {\n            error!(\"terminate_call(): can't trim messages: {}\", err);\n        }\n", "        self.trim_messages(call_id)?;\n", "bad")
m("c11-rtp-first", ["C11"], CMG, "            if let Err(err) = call.inject_send_hangup_via_rtp_data_to_all(hangup) {\n                error!(\"terminate_call(): can't send hangup via RTP data: {}\", err);\n            }", "            call.inject_send_hangup_via_rtp_data_to_all(hangup)?;", "bad")
m("c11-hangup-return", ["C11"], CMG, "                    error!(\"terminate_call(): can't send hangup: {}\", err);\n", "                    error!(\"terminate_call(): can't send hangup: {}\", err);\n                    return;\n", "bad")
m("c11-hangup-only", ["C11"], CMG, "        if let Some(reason) = reason {\n            ended_result = try_scoped", "        if let Some(reason) = reason && (hangup.is_none() || call.should_send_hangup()) {\n            ended_result = try_scoped", "bad")
m("c11-untrimmed", ["C11"], CMG, "        if let Err(err) = self.trim_messages(call_id) {\n            error!(\"terminate_call(): can't trim messages: {}\", err);\n        }\n", "        if hangup.is_none() && let Err(err) = self.trim_messages(call_id) {\n            error!(\"terminate_call(): can't trim messages: {}\", err);\n        }\n", "bad")
m("c11-get-not-remove", ["C11"], CMG, "        let mut call = match self.call_by_call_id.lock()?.remove(&call_id) {\n            Some(v) => v,", "        let mut call = match self.call_by_call_id.lock()?.get(&call_id) {\n            Some(v) => v.clone(),", "bad")
m("c11-first-failure", ["C11"], CAF, "failed to terminate connection: {}\",\n                    self.call_id(),\n                    connection.remote_device_id(),\n                    e\n                );\n", "failed to terminate connection: {}\",\n                    self.call_id(),\n                    connection.remote_device_id(),\n                    e\n                );\n                return Err(e);\n", "bad")
m("c11-media-failure", ["C11"], CAF, "        if let Ok(call_context) = self.call_context()\n            && let Err(e) = self\n                .call_manager()?\n                .disconnect_incoming_media(&call_context)\n        {\n            error!(\n                \"terminate_connections(): call_id: {} failed to disconnect incoming media: {}\",\n                self.call_id(),\n                e\n            );\n        }", "        if let Ok(call_context) = self.call_context() {\n            self.call_manager()?\n                .disconnect_incoming_media(&call_context)?;\n        }", "bad")
m("c11-parent-kept", ["C11"], CAF, "            && let Err(e) = forking.parent_connection.terminate()\n", "            && self.connection_map.lock()?.is_empty()\n            && let Err(e) = forking.parent_connection.terminate()\n", "bad")
m("c11-strong-count", ["C11"], CAF, "        let is_last = self.reference.take().and_then(Arc::into_inner).is_some();", "        let is_last = self.reference.take().is_some_and(|r| Arc::strong_count(&r) == 1);", "bad")
m("c11-concluded-state", ["C11"], CAF, "            if let Ok(call_manager) = self.call_manager()\n                && let Ok(remote_peer) = self.remote_peer()\n", "            if let Ok(call_manager) = self.call_manager()\n                && self.active_device_id().is_ok()\n                && let Ok(remote_peer) = self.remote_peer()\n", "bad")
m("c11-fresh-counter", ["C11"], CAF, "            reference: self.reference.clone(),", "            reference: self.reference.as_ref().map(|_| Arc::new(())),", "bad")
m("c11-stopped-hangup", ["C11"], CMG, "        if !self.worker.stopper().has_been_stopped() {\n            self.worker.send(move |_| f());", "        if !self.worker.stopper().has_been_stopped() && self.busy.lock().is_ok_and(|busy| *busy) {\n            self.worker.send(move |_| f());", "bad")
m("c11-ok-order", ["C11","C07"], CMG, "        let mut call_manager = self.clone();\n        self.worker_spawn(move || {\n            if let Some(hangup) = hangup {\n                // If we want", "        let mut closing = self.clone();\n        self.worker_spawn(move || {\n            let call_manager = &mut closing;\n            if let Some(hangup) = hangup {\n                // If we want", "ok")
m("c11-ok-drop", ["C11"], CAF, "        let is_last = self.reference.take().and_then(Arc::into_inner).is_some();\n        if is_last {", "        let counter = self.reference.take();\n        let is_last = match counter {\n            Some(counter) => Arc::into_inner(counter).is_some(),\n            None => false,\n        };\n        if is_last {", "ok")
m("c11-ok-loop", ["C11"], CAF, "        let mut connection_map = self.connection_map.lock()?;\n        for (_, mut connection) in connection_map.drain() {\n            info!(\n                \"terminate_connections(): call_id", "        let mut connection_map = self.connection_map.lock()?;\n        let connections: Vec<_> = connection_map.drain().map(|(_, c)| c).collect();\n        for mut connection in connections {\n            info!(\n                \"terminate_connections(): call_id", "ok")
m("c09-while-flying", ["C09"], CMG, "                    if message_queue.messages_in_flight {\n                        info!(\"send_next_message(): messages", "                    if message_queue.messages_in_flight && message_queue.queue.len() < 2 {\n                        info!(\"send_next_message(): messages", "bad")
m("c09-push-front", ["C09"], CMG, "message_queue.queue.push_back(message_item);", "if message_item.message_type == signaling::MessageType::Hangup {\n                        message_queue.queue.push_front(message_item);\n                    } else {\n                        message_queue.queue.push_back(message_item);\n                    }", "bad")
m("c09-pop-back", ["C09"], CMG, "message_queue.queue.pop_front()", "message_queue.queue.pop_back()", "bad")
m("c09-ice-unmarked", ["C09"], CMG, "                                        && !assume_messages_sent;", "                                        && !assume_messages_sent\n                                        && message_item.message_type != signaling::MessageType::Ice;", "bad")
m("c09-always-marked", ["C09"], CMG, "(message_is_in_flight\n                                        == MessageSendResult::Sent)\n                                        && !assume_messages_sent;", "!assume_messages_sent;\n                                    let _ = message_is_in_flight == MessageSendResult::Sent;", "bad")
m("c09-marked-on-error", ["C09"], CMG, "                                    closure_error = Some((e, message_item.call_id));", "                                    message_queue.messages_in_flight = !assume_messages_sent;\n                                    closure_error = Some((e, message_item.call_id));", "bad")
m("c09-error-stops", ["C09"], CMG, "                if let Err(e) = self.internal_error(call_id, error) {\n                    error!(\"send_next_message(): unrecoverable {}\", e);\n                    return Err(e);\n                }", "                return self.internal_error(call_id, error);", "bad")
m("c09-error-unnoticed", ["C09"], CMG, "                                    closure_error = Some((e, message_item.call_id));", "                                    if message_item.message_type != signaling::MessageType::Busy {\n                                        closure_error = Some((e, message_item.call_id));\n                                    }", "bad")
m("c09-one-then-stop", ["C09"], CMG, "                                    if message_queue.messages_in_flight {\n                                        // If there are messages in flight, exit the loop and\n                                        // wait for confirmation that they actually got sent.\n                                        return Ok(());\n                                    }", "                                    return Ok(());", "bad")
m("c09-type-forgotten", ["C09"], CMG, "                                    message_queue.last_sent_message_type =\n                                        Some(message_item.message_type);\n", "", "bad")
m("c09-type-wrong", ["C09"], CMG, "                                    message_queue.last_sent_message_type =\n                                        Some(message_item.message_type);\n", "                                    message_queue.last_sent_message_type =\n                                        message_queue.last_sent_message_type.take().or(Some(message_item.message_type));\n", "bad")
m("c09-sent-not-cleared", ["C09"], CMG, "        self.reset_messages_in_flight()?;\n        self.send_next_message(None)", "        if self.call_active()? {\n            self.reset_messages_in_flight()?;\n        }\n        self.send_next_message(None)", "bad")
m("c09-sent-no-next", ["C09"], CMG, "        self.reset_messages_in_flight()?;\n        self.send_next_message(None)", "        self.reset_messages_in_flight()?;\n        if self.active_call_id.lock()?.is_some_and(|id| id != call_id) {\n            return Ok(());\n        }\n        self.send_next_message(None)", "bad")
m("c09-next-then-clear", ["C09"], CMG, "        self.reset_messages_in_flight()?;\n        self.send_next_message(None)", "        self.send_next_message(None)?;\n        self.reset_messages_in_flight()", "bad")
m("c09-failure-no-next", ["C09"], CMG, "            info!(\"handle_message_send_failure(): no matching call found\");", "            info!(\"handle_message_send_failure(): no matching call found\");\n            return Ok(());", "bad")
m("c09-failure-not-cleared", ["C09"], CMG, "            Ok(mut message_queue) => {\n                message_queue.messages_in_flight = false;\n            }\n            Err(e) => {\n                error!(\"Could not lock the message queue", "            Ok(mut message_queue) => {\n                if message_queue.last_sent_message_type != Some(signaling::MessageType::Busy) {\n                    message_queue.messages_in_flight = false;\n                }\n            }\n            Err(e) => {\n                error!(\"Could not lock the message queue", "bad")
m("c09-ice-always-ends", ["C09"], CMG, "                    .is_ok_and(|state| state.connected_or_reconnecting())", "                    .is_ok_and(|state| state == CallState::ConnectedAndAccepted)", "bad")
m("c09-ice-never-ends", ["C09"], CMG, "                if call\n                    .state()\n                    .is_ok_and(|state| state.connected_or_reconnecting())\n                    && self", "                if self", "bad")
m("c09-any-stays", ["C09"], CMG, "                    && self.message_queue.lock().is_ok_and(|queue| {\n                        queue.last_sent_message_type == Some(signaling::MessageType::Ice)\n                    })", "                    && self.message_queue.lock().is_ok_and(|queue| {\n                        queue.last_sent_message_type != Some(signaling::MessageType::Offer)\n                    })", "bad")
m("c09-failure-any-call", ["C09"], CMG, "            .filter(|call| call.call_id() == call_id)\n            .map(|call| (Some(call), true))", "            .map(|call| (Some(call), true))", "bad")
m("c09-failure-reason", ["C09"], CMG, "                        CallEndReason::SignalingFailure,\n                    );\n                }\n            } else {", "                        CallEndReason::Timeout,\n                    );\n                }\n            } else {", "bad")
m("c09-trim-hangup", ["C09"], CMG, "                || (x.message_type == signaling::MessageType::Hangup)\n", "", "bad")
m("c09-trim-others", ["C09"], CMG, "            (x.call_id != call_id)\n                || (x.message_type", "            (x.message_type", "bad")
m("c09-trim-keeps-answer", ["C09"], CMG, "                || (x.message_type == signaling::MessageType::Hangup)\n", "                || (x.message_type == signaling::MessageType::Hangup)\n                || (x.message_type == signaling::MessageType::Answer)\n", "bad")
m("c09-busy-past-queue", ["C09"], CMG, "        let message_item = SignalingMessageItem {\n            call_id,\n            message_type: signaling::MessageType::Busy,\n            message_closure: busy_closure,\n        };\n\n        self.send_next_message(Some(message_item))", "        let queue_empty = self.message_queue.lock()?.queue.is_empty();\n        if queue_empty {\n            return busy_closure(self).map(|_| ());\n        }\n        let message_item = SignalingMessageItem {\n            call_id,\n            message_type: signaling::MessageType::Busy,\n            message_closure: busy_closure,\n        };\n\n        self.send_next_message(Some(message_item))", "bad")
m("c09-offer-said-unsent", ["C09"], CMG, "                platform.on_send_offer(&remote_peer, call_id, offer)?;\n                Ok(MessageSendResult::Sent)", "                platform.on_send_offer(&remote_peer, call_id, offer)?;\n                Ok(MessageSendResult::NotSent)", "bad")
m("c09-answer-error-eaten", ["C09"], CMG, "                platform.on_send_answer(&remote_peer, call_id, send)?;\n                Ok(MessageSendResult::Sent)", "                let _ = platform.on_send_answer(&remote_peer, call_id, send);\n                Ok(MessageSendResult::Sent)", "bad")
m("c09-answer-as-offer", ["C09"], CMG, "            message_type: signaling::MessageType::Answer,\n            message_closure", "            message_type: signaling::MessageType::Ice,\n            message_closure", "bad")
m("c09-reset-on-busy", ["C09"], CMG, "        let call_id = call.call_id();\n        info!(\"send_busy(): call_id: {}\", call_id);", "        let call_id = call.call_id();\n        info!(\"send_busy(): call_id: {}\", call_id);\n        self.reset_messages_in_flight()?;", "bad")
m("c09-reset-early", ["C09"], CMG, ["                    // Whenever there is a new call, ensure that messages can flow.\n                    self.reset_messages_in_flight()?;\n", "        if *busy {\n            Err(RingRtcError::CallManagerIsBusy.into())\n        } else {\n            let mut active_call_id"], ["", "        self.reset_messages_in_flight()?;\n        if *busy {\n            Err(RingRtcError::CallManagerIsBusy.into())\n        } else {\n            let mut active_call_id"], "bad")
m("c09-ok-helper", ["C09", "C11"], CMG, ["        match self.message_queue.lock() {\n            Ok(mut message_queue) => {\n                message_queue.messages_in_flight = false;\n            }\n            Err(e) => {\n                error!(\"Could not lock the message queue: {}\", e);\n                return Err(e);\n            }\n        }\n\n        self.send_next_message(None)"], ["        self.reset_messages_in_flight()?;\n        self.send_next_message(None)"], "ok")
m("c09-ok-shape", ["C09"], CMG, ["            (x.call_id != call_id)\n                || (x.message_type == signaling::MessageType::Busy)\n                || (x.message_type == signaling::MessageType::Hangup)", "            match self.message_queue.lock() {\n                Ok(mut message_queue) => {\n                    message_queue.queue.push_back(message_item);\n                }\n                Err(e) => {\n                    return Err(e);\n                }\n            }"], ["            if x.call_id == call_id {\n                matches!(\n                    x.message_type,\n                    signaling::MessageType::Hangup | signaling::MessageType::Busy\n                )\n            } else {\n                true\n            }", "            self.message_queue.lock()?.queue.push_back(message_item);"], "ok")
m("c09-ok-flight", ["C09"], CMG, "                                    message_queue.messages_in_flight = (message_is_in_flight\n                                        == MessageSendResult::Sent)\n                                        && !assume_messages_sent;\n\n                                    message_queue.last_sent_message_type =\n                                        Some(message_item.message_type);\n", "                                    message_queue.last_sent_message_type =\n                                        Some(message_item.message_type);\n                                    let in_flight = match message_is_in_flight {\n                                        MessageSendResult::Sent => !assume_messages_sent,\n                                        MessageSendResult::NotSent => false,\n                                    };\n                                    message_queue.messages_in_flight = in_flight;\n", "ok")
m("c09-ok-failure", ["C09", "C11"], CMG, "                if call\n                    .state()\n                    .is_ok_and(|state| state.connected_or_reconnecting())\n                    && self.message_queue.lock().is_ok_and(|queue| {\n                        queue.last_sent_message_type == Some(signaling::MessageType::Ice)\n                    })\n                {", "                let connected = matches!(call.state(), Ok(state) if state.connected_or_reconnecting());\n                let last_was_ice = match self.message_queue.lock() {\n                    Ok(queue) => {\n                        matches!(queue.last_sent_message_type, Some(signaling::MessageType::Ice))\n                    }\n                    Err(_) => false,\n                };\n                if connected && last_was_ice {", "ok")
ARP = "        let active_remote_peer = active_call.remote_peer()?.clone();\n        if self\n            .platform\n            .lock()?\n            .compare_remotes(&active_remote_peer, &remote_peer)\n            .unwrap_or(false)\n        {\n"
m("c06-answer-id", ["C06"], CMG, "        let mut active_call = check_active_call!(self, \"handle_received_answer\");\n        if active_call.call_id() != call_id {", "        let mut active_call = check_active_call!(self, \"handle_received_answer\");\n        if active_call.call_id() != call_id && active_call.direction() == CallDirection::Incoming {", "bad")
m("c06-answer-peer", ["C06"], CMG, ARP + "            active_call.inject_received_answer(received)", ARP.replace("unwrap_or(false)", "unwrap_or(true)") + "            active_call.inject_received_answer(received)", "bad")
m("c06-busy-peer", ["C06"], CMG, ARP + "            // Invoke hangup_other", "        if received.sender_device_id != 0 {\n            // Invoke hangup_other", "bad")
m("c06-busy-id", ["C06"], CMG, "        let active_call = check_active_call!(self, \"handle_received_busy\");\n        if active_call.call_id() != call_id {\n            ringbenchx!(RingBench::Cm, RingBench::App, \"inactive call_id\");\n            return Ok(());\n        }\n", "        let active_call = check_active_call!(self, \"handle_received_busy\");\n", "bad")
m("c06-ice-peer-self", ["C06"], CMG, "                let active_remote_peer = active_call.remote_peer()?.clone();\n                if self\n                    .platform\n                    .lock()?\n                    .compare_remotes(&active_remote_peer, &remote_peer)\n                    .unwrap_or(false)\n                {\n                    active_call.inject_received_ice", "                let active_remote_peer = active_call.remote_peer()?.clone();\n                if self\n                    .platform\n                    .lock()?\n                    .compare_remotes(&remote_peer, &remote_peer)\n                    .unwrap_or(false)\n                {\n                    let _ = &active_remote_peer;\n                    active_call.inject_received_ice", "bad")
m("c06-hangup-id", ["C06"], CMG, "            Ok(mut active_call) if active_call.call_id() == call_id => {\n                let active_remote_peer = active_call.remote_peer()?.clone();\n                if self\n                    .platform\n                    .lock()?\n                    .compare_remotes(&active_remote_peer, &remote_peer)\n                    .unwrap_or(false)\n                {\n                    active_call.inject_received_hangup", "            Ok(mut active_call) if active_call.call_id() == call_id || received.hangup.to_type_and_device_id().1.is_some() => {\n                let active_remote_peer = active_call.remote_peer()?.clone();\n                if self\n                    .platform\n                    .lock()?\n                    .compare_remotes(&active_remote_peer, &remote_peer)\n                    .unwrap_or(false)\n                {\n                    active_call.inject_received_hangup", "bad")
m("c06-drop-any", ["C06"], CMG, "        let active_call = check_active_call!(self, \"handle_drop_call\");\n        if active_call.call_id() != call_id {\n            ringbenchx!(RingBench::Cm, RingBench::App, \"inactive call_id\");\n            return Ok(());\n        }\n", "        let active_call = check_active_call!(self, \"handle_drop_call\");\n        if active_call.call_id() != call_id {\n            ringbenchx!(RingBench::Cm, RingBench::App, \"inactive call_id\");\n        }\n", "bad")
m("c06-accept-err", ["C06"], CMG, "        let mut active_call = check_active_call!(self, \"handle_accept_call\");\n        if active_call.call_id() != call_id {\n            ringbenchx!(RingBench::Cm, RingBench::App, \"inactive call_id\");\n            return Ok(());", "        let mut active_call = check_active_call!(self, \"handle_accept_call\");\n        if active_call.call_id() != call_id {\n            ringbenchx!(RingBench::Cm, RingBench::App, \"inactive call_id\");\n            return Err(RingRtcError::NoActiveCall.into());", "bad")
m("c06-proceed-context", ["C06"], CMG, "        if active_call.call_id() != call_id {\n            ringbenchx!(RingBench::Cm, RingBench::App, \"inactive call_id\");\n            Ok(())\n        } else {\n            active_call.set_call_context(app_call_context)?;\n", "        active_call.set_call_context(app_call_context)?;\n        if active_call.call_id() != call_id {\n            ringbenchx!(RingBench::Cm, RingBench::App, \"inactive call_id\");\n            Ok(())\n        } else {\n", "bad")
m("c06-create-error-any", ["C06"], CMG, "            && active_call.call_id() == call_id\n            && self.remote_peer_equals_active", "            && self.remote_peer_equals_active", "bad")
m("c06-unbounded", ["C06"], CMG, "                if received.len() >= 30 {", "                if received.len() == 30 && new_received.sender_device_id == 1 {", "bad")
m("c06-append-other", ["C06"], CMG, "            PendingCallMessages::IceCandidates {\n                call_id, received, ..\n            } if call_id == &new_call_id => {", "            PendingCallMessages::IceCandidates {\n                call_id, received, ..\n            } if call_id == &new_call_id || received.len() < 2 => {", "bad")
m("c06-replay-other", ["C06"], CMG, "                    PendingCallMessages::IceCandidates { call_id, received }\n                        if call_id == incoming_call_id =>\n                    {", "                    PendingCallMessages::IceCandidates { call_id, received }\n                        if call_id == incoming_call_id || received.len() == 1 =>\n                    {", "bad")
m("c06-replay-peer", ["C06"], CMG, "                                .compare_remotes(&pending_remote_peer, &remote_peer)\n                                .unwrap_or(false)", "                                .compare_remotes(&pending_remote_peer, &remote_peer)\n                                .is_ok()", "bad")
m("c06-replay-hangup", ["C06"], CMG, "                            .compare_remotes(&pending_remote_peer, &remote_peer)\n                            .unwrap_or(false)\n                        {\n                            incoming_call.inject_received_hangup", "                            .compare_remotes(&pending_remote_peer, &remote_peer)\n                            .unwrap_or(true)\n                        {\n                            incoming_call.inject_received_hangup", "bad")
m("c06-ok-helper", ["C06", "C08"], CMG, [ARP + "            active_call.inject_received_answer(received)", ARP + "            // Invoke hangup_other", "    /// Handle received_ice() API from application."], ["        if self.is_peer_of(&active_call, &remote_peer)? {\n            active_call.inject_received_answer(received)", "        if self.is_peer_of(&active_call, &remote_peer)? {\n            // Invoke hangup_other", "    fn is_peer_of(&self, call: &Call<T>, peer: &<T as Platform>::AppRemotePeer) -> Result<bool> {\n        let expected = call.remote_peer()?.clone();\n        let platform = self.platform.lock()?;\n        Ok(platform.compare_remotes(&expected, peer).unwrap_or(false))\n    }\n\n    /// Handle received_ice() API from application."], "ok")
m("c06-ok-swapped", ["C06", "C08"], CMG, ["                                .compare_remotes(&pending_remote_peer, &remote_peer)\n                                .unwrap_or(false)", "        let active_call = check_active_call!(self, \"handle_drop_call\");\n        if active_call.call_id() != call_id {\n            ringbenchx!(RingBench::Cm, RingBench::App, \"inactive call_id\");\n            return Ok(());\n        }\n\n        self.handle_terminate_active_call(active_call, None, CallEndReason::AppDroppedCall)"], ["                                .compare_remotes(&remote_peer, &pending_remote_peer)\n                                .is_ok_and(|same| same)", "        let active_call = check_active_call!(self, \"handle_drop_call\");\n        if call_id == active_call.call_id() {\n            self.handle_terminate_active_call(active_call, None, CallEndReason::AppDroppedCall)\n        } else {\n            ringbenchx!(RingBench::Cm, RingBench::App, \"inactive call_id\");\n            Ok(())\n        }"], "ok")
m("c06-ok-ice-flat", ["C06"], CMG, "            Ok(mut active_call) if active_call.call_id() == call_id => {\n                let active_remote_peer = active_call.remote_peer()?.clone();\n                if self\n                    .platform\n                    .lock()?\n                    .compare_remotes(&active_remote_peer, &remote_peer)\n                    .unwrap_or(false)\n                {\n                    active_call.inject_received_ice(received)?;\n                } else {\n                    warn!(\"Unexpected remote peer for ice, ignoring\");\n                }\n            }", "            Ok(mut active_call) if active_call.call_id() == call_id => {\n                let active_remote_peer = active_call.remote_peer()?.clone();\n                let expected = self\n                    .platform\n                    .lock()?\n                    .compare_remotes(&active_remote_peer, &remote_peer)\n                    .unwrap_or(false);\n                if !expected {\n                    warn!(\"Unexpected remote peer for ice, ignoring\");\n                    return Ok(());\n                }\n                active_call.inject_received_ice(received)?;\n            }", "ok")
m("g05-any-user", ["G05"], GC, "            if device.user_id == user_id {\n                info!(\n                    \"Adding media receive key", "            if device.user_id == user_id || !device.media_keys_received {\n                info!(\n                    \"Adding media receive key", "bad")
m("g05-by-user", ["G05"], GC, "        if let Some(device) = state.remote_devices.find_by_demux_id_mut(demux_id) {\n            if device.user_id == user_id {\n                info!(\n                    \"Adding", "        if let Some(device) = state\n            .remote_devices\n            .iter_mut()\n            .find(|device| device.user_id == user_id)\n        {\n            if device.user_id == user_id {\n                info!(\n                    \"Adding", "bad")
m("g05-find-first", ["G05"], GC, "        self.0.iter_mut().find(|device| device.demux_id == demux_id)", "        self.0.iter_mut().find(|device| device.demux_id <= demux_id)", "bad")
m("g05-counter-cast", ["G05"], GC, ["                    if let Ok(ratchet_counter) = ratchet_counter.try_into() {\n                        let mut secret"], ["                    if let Ok(ratchet_counter) = u8::try_from(ratchet_counter & 0xff) {\n                        let mut secret"], "bad")
m("g05-short-key", ["G05"], GC, "                        let Ok(_) = secret.safe_copy_from_slice(&secret_vec) else {\n                            warn!(\"on_signaling_message_received(): ignoring media receive key with wrong length\");\n                            return;\n                        };", "                        for (to, from) in secret.iter_mut().zip(secret_vec) {\n                            *to = from;\n                        }", "bad")
m("g05-len-ignored", ["G05"], GC, "                        let Ok(_) = secret.safe_copy_from_slice(&secret_vec) else {\n                            warn!(\"on_signaling_message_received(): ignoring media receive key with wrong length\");\n                            return;\n                        };", "                        let _ = secret.safe_copy_from_slice(&secret_vec);", "bad")
m("g05-hold-lost", ["G05"], GC, "            for (user_id, demux_id, ratchet_counter, secret) in pending_receive_keys {\n", "            for (user_id, demux_id, ratchet_counter, secret) in pending_receive_keys {\n                if !new_user_ids.contains(&user_id) {\n                    continue;\n                }\n", "bad")
m("g05-hold-user", ["G05"], GC, "            for (user_id, demux_id, ratchet_counter, secret) in pending_receive_keys {\n", "            for (user_id, demux_id, ratchet_counter, secret) in pending_receive_keys {\n                let user_id = state.remote_devices.find_by_demux_id(demux_id).map_or(user_id, |d| d.user_id.clone());\n", "bad")
m("g05-before-update", ["G05"], GC, ["            let pending_receive_keys = std::mem::take(&mut state.pending_media_receive_keys);\n            for (user_id, demux_id, ratchet_counter, secret) in pending_receive_keys {\n                // If we the key is still pending, we'll just put this back into state.pending_media_receive_keys.\n                Self::add_media_receive_key_or_store_for_later(\n                    state,\n                    user_id,\n                    demux_id,\n                    ratchet_counter,\n                    secret,\n                );\n            }\n"], ["            state.pending_media_receive_keys.truncate(64);\n            let pending_receive_keys = std::mem::take(&mut state.pending_media_receive_keys);\n            for (user_id, demux_id, ratchet_counter, secret) in pending_receive_keys {\n                Self::add_media_receive_key_or_store_for_later(\n                    state,\n                    user_id,\n                    demux_id,\n                    ratchet_counter,\n                    secret,\n                );\n            }\n"], "bad")
m("g05-entry-kept", ["G05"], GC, "                            old_remote_devices_by_demux_id.remove(&device.demux_id)\n                            && &existing_remote_device.user_id == user_id\n", "                            old_remote_devices_by_demux_id.remove(&device.demux_id)\n", "bad")
m("g05-entry-user", ["G05"], GC, "                            && &existing_remote_device.user_id == user_id\n                        {\n                            return existing_remote_device;", "                        {\n                            let mut existing_remote_device = existing_remote_device;\n                            existing_remote_device.user_id = user_id.clone();\n                            return existing_remote_device;", "bad")
m("g05-held-known", ["G05"], GC, "            } else {\n                warn!(\n                    \"Ignoring received media key from user because the demux ID {} doesn't make sense\",\n                    demux_id\n                );", "            } else {\n                warn!(\n                    \"Ignoring received media key from user because the demux ID {} doesn't make sense\",\n                    demux_id\n                );\n                if state.pending_media_receive_keys.len() < 10 {\n                    state.pending_media_receive_keys.push((user_id.clone(), demux_id, ratchet_counter, secret));\n                }", "bad")
m("g05-marked", ["G05"], GC, "            } else {\n                warn!(\n                    \"Ignoring received media key from user because the demux ID {} doesn't make sense\",\n                    demux_id\n                );", "            } else {\n                warn!(\n                    \"Ignoring received media key from user because the demux ID {} doesn't make sense\",\n                    demux_id\n                );\n                device.media_keys_received = true;", "bad")
m("g05-other-group", ["G05"], CMG, "                        .find(|c| &c.client.group_id == group_id && c.active);\n                    match group_call {\n                        Some(group_call) => group_call\n                            .client\n                            .on_signaling", "                        .find(|c| &c.client.group_id == group_id || c.active);\n                    match group_call {\n                        Some(group_call) => group_call\n                            .client\n                            .on_signaling", "bad")
m("g05-pending-cleared", ["G05"], GC, "                state.observer.request_group_members(state.client_id);\n            }\n            state\n                .pending_media_receive_keys\n                .push(", "                state.observer.request_group_members(state.client_id);\n            }\n            state\n                .pending_media_receive_keys\n                .retain(|(_, held, _, _)| *held != demux_id);\n            state\n                .pending_media_receive_keys\n                .push(", "bad")
m("g05-ok-flat", ["G05"], GC, ["            if device.user_id == user_id {\n                info!(\n                    \"Adding media receive key", "            } else {\n                warn!(\n                    \"Ignoring received media key from user because the demux ID {} doesn't make sense\",\n                    demux_id\n                );\n                debug!(\"  user_id: {}\", uuid_to_string(&user_id));\n            }\n        } else {", "                    let mut frame_crypto_context = state\n                        .frame_crypto_context\n                        .lock()\n                        .expect(\"Get lock for frame encryption context to add media receive key\");\n                    frame_crypto_context.add_receive_secret(demux_id, ratchet_counter, secret);"], ["            if user_id != device.user_id {\n                warn!(\n                    \"Ignoring received media key from user because the demux ID {} doesn't make sense\",\n                    demux_id\n                );\n                return;\n            }\n            {\n                info!(\n                    \"Adding media receive key", "            }\n        } else {", "                    let sender = device.demux_id;\n                    state\n                        .frame_crypto_context\n                        .lock()\n                        .expect(\"Get lock for frame encryption context to add media receive key\")\n                        .add_receive_secret(sender, ratchet_counter, secret);"], "ok")
m("g05-ok-array", ["G05"], GC, "                        let mut secret = frame_crypto::Secret::default();\n                        let Ok(_) = secret.safe_copy_from_slice(&secret_vec) else {\n                            warn!(\"on_signaling_message_received(): ignoring media receive key with wrong length\");\n                            return;\n                        };", "                        let Ok(secret) = frame_crypto::Secret::try_from(secret_vec.as_slice()) else {\n                            warn!(\"on_signaling_message_received(): ignoring media receive key with wrong length\");\n                            return;\n                        };", "ok")
m("g05-ok-drain", ["G05"], GC, ["            let pending_receive_keys = std::mem::take(&mut state.pending_media_receive_keys);\n            for (user_id, demux_id, ratchet_counter, secret) in pending_receive_keys {\n                // If we the key is still pending, we'll just put this back into state.pending_media_receive_keys.\n"], ["            let held = std::mem::replace(&mut state.pending_media_receive_keys, Vec::new());\n            for (user_id, demux_id, ratchet_counter, secret) in held {\n"], "ok")
# S01 / S02: locks and waits
m("s01-route", ["S01"], CNF, """        if let Ok(old_network_route) = self.network_route()
            && let Ok(mut webrtc) = self
                .webrtc
                .lock()
                .inspect_err(|e| error!("couldn't get webrtc lock: {}", e))
""", """        if let Ok(mut webrtc) = self
                .webrtc
                .lock()
                .inspect_err(|e| error!("couldn't get webrtc lock: {}", e))
            && let Ok(old_network_route) = self.network_route()
""", "bad")
m("s01-ice-guard", ["S01"], CNF, "            let call = self.call()?.clone();\n            let broadcast = self", "            let call = self.call()?;\n            let broadcast = self", "bad")
m("s01-drop-under-map", ["S01"], CMG, """        let mut call = match self.call_by_call_id.lock()?.remove(&call_id) {
            Some(v) => v,
            None => return Err(RingRtcError::CallIdNotFound(call_id).into()),
        };

        // blocks while call FSM terminates
        call.terminate()
""", """        let mut call_map = self.call_by_call_id.lock()?;
        let mut call = match call_map.remove(&call_id) {
            Some(v) => v,
            None => return Err(RingRtcError::CallIdNotFound(call_id).into()),
        };

        // blocks while call FSM terminates
        call.terminate()
""", "bad")
m("s01-release-order", ["S01"], CMG, """        let mut busy = self.busy.lock()?;
        let mut active_call_id = self.active_call_id.lock()?;
        if *active_call_id != Some(call_id) {""", """        let mut active_call_id = self.active_call_id.lock()?;
        let mut busy = self.busy.lock()?;
        if *active_call_id != Some(call_id) {""", "bad")
m("s01-error-under-queue", ["S01"], CMG, """                                    error!("send_next_message(): closure failed {}", e);
                                    closure_error = Some((e, message_item.call_id));""", """                                    error!("send_next_message(): closure failed {}", e);
                                    if let Err(e) = self.clone().internal_error(message_item.call_id, e) {
                                        error!("send_next_message(): unrecoverable {}", e);
                                        closure_error = Some((e, message_item.call_id));
                                    }""", "bad")
m("s01-active-relock", ["S01"], CMG, """        if *active_call_id != Some(call_id) {
            info!("release""", """        if !self.call_is_active(call_id)? {
            info!("release""", "bad")
m("s01-data-mode", ["S01"], CNF, """        let mut bandwidth_controller = self.bandwidth_controller.lock()?;

        let changed = update(&mut bandwidth_controller);
        if changed {
            // We need to always take the locks in this order. See apply_bandwidth_controller.
            let mut webrtc = self.webrtc.lock()?;
""", """        let mut webrtc = self.webrtc.lock()?;
        let mut bandwidth_controller = self.bandwidth_controller.lock()?;

        let changed = update(&mut bandwidth_controller);
        if changed {
""", "bad")
m("s01-route-block-ok", ["S01", "S02"], CNF, """        if let Ok(old_network_route) = self.network_route()
            && let Ok(mut webrtc) = self""", """        let known = self.network_route();
        if let Ok(old_network_route) = known
            && let Ok(mut webrtc) = self""", "ok")
m("s01-scope-ok", ["S01", "S02"], CMG, """        *active_call_id = None;
        *busy = false;
        Ok(true)""", """        *active_call_id = None;
        drop(active_call_id);
        *busy = false;
        drop(busy);
        info!("release_active_call(): released {:?}", self.call_is_active(call_id)?);
        Ok(true)""", "ok")
m("s02-rtp-webrtc", ["S02"], CNF, """        let mut last_received_rtp_data_timestamp = self
            .last_received_rtp_data_timestamp
            .lock()
            .expect("Lock last_received_rtp_data_timestamp");
""", """        if let Ok(webrtc) = self.webrtc.lock()
            && webrtc.stats_observer.is_none()
        {
            debug!("no stats yet");
        }
        let mut last_received_rtp_data_timestamp = self
            .last_received_rtp_data_timestamp
            .lock()
            .expect("Lock last_received_rtp_data_timestamp");
""", "bad")
m("s02-ice-sleep", ["S02"], CNF, """            IceConnectionState::Failed => self.inject_ice_failed(),
            IceC""", """            IceConnectionState::Failed => {
                thread::sleep(Duration::from_millis(50));
                self.inject_ice_failed()
            }
            IceC""", "bad")
m("s02-route-direct", ["S02"], CNF, """        self.inject_ice_network_route_changed(network_route)
    }

    fn handle_incoming""", """        self.set_network_route(network_route)?;
        self.inject_ice_network_route_changed(network_route)
    }

    fn handle_incoming""", "bad")
m("s02-worker-terminates", ["S02"], "src/rust/src/core/call_fsm.rs", """                            call.handle_ice_failed(remote_device_id)
""", """                            call.handle_ice_failed(remote_device_id)?;
                            call.terminate()
""", "bad")
m("s02-conn-worker-terminates", ["S02"], "src/rust/src/core/connection_fsm.rs", """                    if connection.terminating()? {
                        return Ok(());
                    }
                    connection.buffer_local_ice_candidates(candidates)""", """                    if connection.terminating()? {
                        return connection.terminate();
                    }
                    connection.buffer_local_ice_candidates(candidates)""", "bad")
m("s02-sync-terminate", ["S02"], CMG, """        let mut call_manager = self.clone();
        self.worker_spawn(move || {
            if let Some(hangup) = hangup {""", """        if call.state().is_ok_and(|state| state == CallState::Terminating) {
            call.terminate()?;
        }
        let mut call_manager = self.clone();
        self.worker_spawn(move || {
            if let Some(hangup) = hangup {""", "bad")
m("s02-local-ok", ["S02", "S01"], CNF, """            IceConnectionState::Failed => self.inject_ice_failed(),
            IceC""", """            IceConnectionState::Failed => {
                let mut failed = self.clone();
                failed.inject_ice_failed()
            }
            IceC""", "ok")
EN = "src/rust/src/core/endorsements.rs"
m("g10-valid-any", ["G10"], EN, "let Some(last_updated) = self.last_updated.get(&expiration) else {\n            return false;\n        };\n\n        if self", "let Some(last_updated) = self.last_updated.values().last() else {\n            return false;\n        };\n\n        if self", "bad")
m("g10-own-mark", ["G10"], EN, "        if self.invalid_markers.contains_key(&Some(expiration)) {\n            return false;\n        }\n\n        self.invalid_markers\n            .get(&None)", "        self.invalid_markers\n            .get(&None)", "bad")
m("g10-mark-order", ["G10"], EN, "invalidated_at < last_updated)", "invalidated_at > last_updated)", "bad")
m("g10-mark-all", ["G10"], EN, "            .get(&None)\n", "            .get(&Some(expiration))\n", "bad")
m("g10-token-skip", ["G10"], EN, "                    found.push(endorsement)\n                } else {\n                    return None;\n                }", "                    found.push(endorsement)\n                }", "bad")
m("g10-users-skip", ["G10"], EN, "            let endorsement = endorsements.get(id)?;\n            result.insert(id, endorsement);", "            if let Some(endorsement) = endorsements.get(id) {\n                result.insert(id, endorsement);\n            }", "bad")
m("g10-users-unchecked", ["G10"], EN, "        if !self.is_valid(*expiration) {\n            return None;\n        }\n\n        let mut result", "        let mut result", "bad")
m("g10-latest-unchecked", ["G10"], EN, "        if !self.latest_is_valid() {\n            return None;\n        }\n\n        self.last_shared", "        self.last_shared", "bad")
m("g10-users-first", ["G10"], EN, "                || self.endorsements.iter().last(),", "                || self.endorsements.iter().next(),", "bad")
m("g10-insert-clear", ["G10"], EN, "        self.invalid_markers.remove(&Some(expiration));\n        self.invalid_markers.remove(&None);", "        self.invalid_markers.clear();", "bad")
m("g10-invalid-all", ["G10"], EN, "self.invalid_markers.insert(expiration, marker);", "self.invalid_markers.insert(None, marker);", "bad")
m("g10-len-ids", ["G10"], GC, "        if member_ids.len() != member_ciphertexts.len()\n            || member_uuid", "        if member_uuid", "bad")
m("g10-len-cts", ["G10"], GC, "        if member_ids.len() != member_ciphertexts.len()\n            || member_uuid_ciphertexts.len() != member_ciphertexts.len()\n", "        if member_ids.len() != member_uuid_ciphertexts.len()\n", "bad")
m("g10-expired", ["G10"], GC, "        if response.expiration() < now {\n            state", "        if response.expiration() > now && false {\n            state", "bad")
m("g10-empty", ["G10"], GC, "        if member_ciphertexts.is_empty() {\n            state.observer.handle_endorsements", "        if member_ciphertexts.len() > 1000 {\n            state.observer.handle_endorsements", "bad")
m("g10-silent", ["G10"], GC, "                state.observer.handle_endorsements_update(\n                    state.client_id,\n                    Err(EndorsementUpdateError::InvalidEndorsementResponse),\n                );\n                None\n", "                None\n", "bad")
m("g10-invalidate-all", ["G10"], GC, "                endorsement_cache.set_invalid(\n                    Some(expiration),\n                    \"Failed", "                endorsement_cache.set_invalid(\n                    None,\n                    \"Failed", "bad")
m("g10-send-latest", ["G10"], GC, ".get_endorsements_for_users(endorsements_expiration, recipients.iter())", ".get_endorsements_for_users(None, recipients.iter())", "bad")
m("g10-users-collect-ok", ["G10"], EN, "        let mut result = HashMap::new();\n        for id in user_ids {\n            let endorsement = endorsements.get(id)?;\n            result.insert(id, endorsement);\n        }\n        Some((*expiration, result))", "        let result = user_ids\n            .map(|id| endorsements.get(id).map(|e| (id, e)))\n            .collect::<Option<HashMap<_, _>>>()?;\n        Some((*expiration, result))", "ok")
m("g10-users-filter", ["G10"], EN, "        let mut result = HashMap::new();\n        for id in user_ids {\n            let endorsement = endorsements.get(id)?;\n            result.insert(id, endorsement);\n        }\n        Some((*expiration, result))", "        let result = user_ids\n            .filter_map(|id| endorsements.get(id).map(|e| (id, e)))\n            .collect::<HashMap<_, _>>();\n        Some((*expiration, result))", "bad")
m("g10-valid-flip-ok", ["G10"], EN, ".is_none_or(|(invalidated_at, _)| invalidated_at < last_updated)", ".map_or(true, |(invalidated_at, _)| last_updated > invalidated_at)", "ok")
m("g10-match-key-ok", ["G10"], GC, "        let Some(endorsement_cache) = state.group_send_endorsement_cache.as_mut() else {\n            warn!(\n                \"Received endorsements when there is no group_send_endorsement_cache, likely not an adhoc call.\"\n            );\n            return None;\n        };\n        let expiration = response.expiration();", "        let expiration = response.expiration();\n        let Some(endorsement_cache) = state.group_send_endorsement_cache.as_mut() else {\n            return None;\n        };", "ok")
PCO = "src/rust/src/webrtc/peer_connection_observer.rs"
m("g06-clear-data", ["G06"], GC, "            let message = Self::encrypt_data(state, message)?;\n", "            let message = Self::encrypt_data(state, message).unwrap_or_else(|_| message.to_vec());\n", "bad")
m("g06-heartbeat-clear", ["G06"], GC, "        Self::broadcast_data_through_sfu(state, &heartbeat_msg.encode_to_vec())", "        Self::send_data_to_sfu(state, &heartbeat_msg.encode_to_vec())", "bad")
m("g06-encrypt-ignore", ["G06"], GC, "        Self::encrypt(&mut frame_crypto_context, plaintext, &mut ciphertext)?;\n        Ok(ciphertext)", "        if Self::encrypt(&mut frame_crypto_context, plaintext, &mut ciphertext).is_err() {\n            warn!(\"could not encrypt\");\n        }\n        Ok(ciphertext)", "bad")
m("g06-media-passthrough", ["G06"], GC, "            warn!(\"Call isn't setup yet!  Can't encrypt.\");\n            Err(RingRtcError::FailedToEncrypt.into())", "            warn!(\"Call isn't setup yet!  Can't encrypt.\");\n            ciphertext_buffer[..plaintext.len()].copy_from_slice(plaintext);\n            Ok(plaintext.len())", "bad")
m("g06-default-passthrough", ["G06"], PCO, "    fn encrypt_media(&mut self, _plaintext: &[u8], _ciphertext_buffer: &mut [u8]) -> Result<usize> {\n        Err(RingRtcError::FailedToEncrypt.into())", "    fn encrypt_media(&mut self, plaintext: &[u8], ciphertext_buffer: &mut [u8]) -> Result<usize> {\n        ciphertext_buffer[..plaintext.len()].copy_from_slice(plaintext);\n        Ok(plaintext.len())", "bad")
m("g06-callback-true", ["G06"], PCO, "pc_observer_EncryptMedia called with null observer\");\n        false", "pc_observer_EncryptMedia called with null observer\");\n        true", "bad")
m("g06-not-enabled", ["G06"], GC, "            true, /* enable_frame_encryption */", "            false, /* enable_frame_encryption */", "bad")
m("g06-not-passed", ["G06"], PCO, "                enable_frame_encryption,\n                enable_video_frame_event,\n", "                enable_video_frame_event,\n                enable_video_frame_event,\n", "bad")
m("g06-short-encrypt", ["G06"], GC, "        let encrypted_payload = ciphertext.write_slice(plaintext)?;\n\n        let mut mac", "        let (head, tail) = plaintext.split_at(plaintext.len() / 2);\n        ciphertext.write_slice(head)?;\n        let encrypted_payload = ciphertext.write_slice(tail)?;\n\n        let mut mac", "bad")
m("g06-decrypt-ignore", ["G06"], GC, "        frame_crypto_context.decrypt(\n            remote_demux_id,\n            ratchet_counter,\n            frame_counter as u64,\n            encrypted_payload,\n            &mac,\n        )?;", "        let _ = frame_crypto_context.decrypt(\n            remote_demux_id,\n            ratchet_counter,\n            frame_counter as u64,\n            encrypted_payload,\n            &mac,\n        );", "bad")
m("g06-decrypt-demux", ["G06"], GC, "            client.decrypt_media(remote_demux_id, ciphertext, plaintext_buffer)", "            client.decrypt_media(remote_demux_id & 0xfffffff0, ciphertext, plaintext_buffer)", "bad")
m("g06-empty-clear", ["G06"], GC, "        let mut ciphertext = vec![0; Self::get_ciphertext_buffer_size(plaintext.len())];\n        Self::encrypt(", "        if plaintext.len() < 4 {\n            return Ok(plaintext.to_vec());\n        }\n        let mut ciphertext = vec![0; Self::get_ciphertext_buffer_size(plaintext.len())];\n        Self::encrypt(", "bad")
m("g06-pending-clear", ["G06"], GC, "        if let JoinState::Joined(local_demux_id) = state.join_state {\n            let message = Self::encrypt_data(state, message)?;\n            let ssrc", "        if let JoinState::Joined(local_demux_id) = state.join_state {\n            let message = if state.remote_devices.is_empty() { message.to_vec() } else { Self::encrypt_data(state, message)? };\n            let ssrc", "bad")
m("g06-match-ok", ["G06"], GC, "            let message = Self::encrypt_data(state, message)?;\n", "            let message = match Self::encrypt_data(state, message) {\n                Ok(m) => m,\n                Err(e) => return Err(e),\n            };\n", "ok")
m("g06-named-ok", ["G06"], GC, "        Self::broadcast_data_through_sfu(state, &heartbeat_msg.encode_to_vec())", "        let encoded = heartbeat_msg.encode_to_vec();\n        debug!(\"heartbeat of {} bytes\", encoded.len());\n        Self::broadcast_data_through_sfu(state, encoded.as_slice())", "ok")
m("g06-media-match-ok", ["G06"], GC, "        if let Some(client) = &self.client {\n            client.encrypt_media(plaintext, ciphertext_buffer)\n        } else {", "        let client = self.client.as_ref();\n        if let Some(client) = client {\n            let size = client.encrypt_media(plaintext, ciphertext_buffer)?;\n            Ok(size)\n        } else {", "ok")
