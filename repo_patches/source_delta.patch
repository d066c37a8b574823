From 35a8789960f4426ed715cdb2805dfd682970fc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:19 +0000
Subject: [PATCH 01/22] fix: process every reliable SFU message that became
 ready, not only those up to the first with content

---
 src/rust/src/core/group_call.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/src/core/group_call.rs b/src/rust/src/core/group_call.rs
index 6bf9ee5..85ab226 100644
--- a/src/rust/src/core/group_call.rs
+++ b/src/rust/src/core/group_call.rs
@@ -4421,7 +4421,7 @@ impl Client {
                                         error!("Failed to decode content buffer in SfuToDevice: {:?}", err);
                                     }
                                 }
-                                return;
+                                continue;
                             } else {
                                 Self::handle_sfu_to_device_inner(
                                     &state.actor,
-- 
2.43.0


From 02a641bfcb47419647756adb6bbfecb9f43c06d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:19 +0000
Subject: [PATCH 02/22] fix: don't hold the busy lock while sending the busy
 message

---
 src/rust/src/core/call_manager.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 4426a4f..a5ed7cc 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -1506,6 +1506,9 @@ where
             }
             IncomingCallAction::RejectAsBusy(app_event) => {
                 self.notify_application(&remote_peer, incoming_call_id, app_event)?;
+                // Sending can fail a message of the active call, which terminates that call
+                // and releases busy, so don't hold the lock while sending.
+                drop(busy);
                 self.send_busy(incoming_call)?;
             }
             IncomingCallAction::Start => {
-- 
2.43.0


From 8a33dfe5a003e70fe88067bf432aef573f8e98b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:19 +0000
Subject: [PATCH 03/22] fix: don't panic on a call link expiration that can't
 be represented

---
 src/rust/src/lite/call_links.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/lite/call_links.rs b/src/rust/src/lite/call_links.rs
index b407280..9aaf443 100644
--- a/src/rust/src/lite/call_links.rs
+++ b/src/rust/src/lite/call_links.rs
@@ -103,7 +103,11 @@ impl CallLinkState {
             restrictions: deserialized.restrictions,
             revoked: deserialized.revoked,
             expiration: SystemTime::UNIX_EPOCH
-                + Duration::from_secs(deserialized.expiration_unix_timestamp),
+                .checked_add(Duration::from_secs(deserialized.expiration_unix_timestamp))
+                .unwrap_or_else(|| {
+                    warn!("expiration of call link is not a representable time");
+                    SystemTime::UNIX_EPOCH
+                }),
         }
     }
 }
-- 
2.43.0


From 058a50516e9f4c51869f3bff8771eb266ffef705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:42 +0000
Subject: [PATCH 04/22] fix: refuse anything after the last group of a call
 link root key string

parse_with_separators stopped as soon as the list of chunk sizes was used
up, so a complete root key followed by a dash and arbitrary text was
accepted as that key.
---
 src/rust/src/lite/call_links/base16.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/lite/call_links/base16.rs b/src/rust/src/lite/call_links/base16.rs
index 7656be7..9dfce65 100644
--- a/src/rust/src/lite/call_links/base16.rs
+++ b/src/rust/src/lite/call_links/base16.rs
@@ -129,7 +129,11 @@ impl ConsonantBase16<'_> {
                 }
                 count_until_separator = match chunk_size_iter.next() {
                     Some(chunk_size) => chunk_size,
-                    None => break,
+                    None => {
+                        // All expected chunks were read, so nothing may follow the last one.
+                        let position = string.len() - (bytes.len() + 1);
+                        return Err(DecodeError::UnexpectedSeparator(position));
+                    }
                 };
                 continue;
             }
-- 
2.43.0


From c1ff1bdcc85741f890e715ca523ef56ba9a252af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:35 +0000
Subject: [PATCH 05/22] fix: refuse pixel buffers too short for the frame

VideoFrame::copy_from_slice and to_rgba handed the pointer of a safe slice to
native code that accesses as many bytes as the frame needs, whatever the
slice's length.
---
 src/rust/src/webrtc/media.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/rust/src/webrtc/media.rs b/src/rust/src/webrtc/media.rs
index be1ac1a..ad30381 100644
--- a/src/rust/src/webrtc/media.rs
+++ b/src/rust/src/webrtc/media.rs
@@ -128,6 +128,19 @@ impl VideoPixelFormat {
             _ => None,
         }
     }
+
+    /// The number of bytes of a frame in this format.
+    fn buffer_size(self, width: u32, height: u32) -> usize {
+        let (width, height) = (width as usize, height as usize);
+        let pixels = width.saturating_mul(height);
+        match self {
+            VideoPixelFormat::I420 | VideoPixelFormat::Nv12 => {
+                let chroma_pixels = width.div_ceil(2).saturating_mul(height.div_ceil(2));
+                pixels.saturating_add(chroma_pixels.saturating_mul(2))
+            }
+            VideoPixelFormat::Rgba => pixels.saturating_mul(4),
+        }
+    }
 }
 
 pub struct VideoFrame {
@@ -178,12 +191,23 @@ impl VideoFrame {
         }
     }
 
+    /// Copies the pixels of a frame out of `buffer`.
+    ///
+    /// Panics if `buffer` is too short for a frame of the given size and format.
     pub fn copy_from_slice(
         width: u32,
         height: u32,
         pixel_format: VideoPixelFormat,
         buffer: &[u8],
     ) -> Self {
+        assert!(
+            buffer.len() >= pixel_format.buffer_size(width, height),
+            "buffer of {} bytes is too short for a {}x{} {:?} frame",
+            buffer.len(),
+            width,
+            height,
+            pixel_format
+        );
         let metadata = VideoFrameMetadata {
             width,
             height,
@@ -204,7 +228,11 @@ impl VideoFrame {
         Self::from_buffer(metadata, rffi_buffer)
     }
 
+    /// Returns false without writing anything if `rgba_buffer` is too short for the frame.
     pub fn to_rgba(&self, rgba_buffer: &mut [u8]) -> bool {
+        if rgba_buffer.len() < VideoPixelFormat::Rgba.buffer_size(self.width(), self.height()) {
+            return false;
+        }
         unsafe {
             media::Rust_convertVideoFrameBufferToRgba(
                 self.rffi_buffer.as_borrowed(),
-- 
2.43.0


From 3896d6f916dc29ffc03dad7e838e926e66b44a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:44 +0000
Subject: [PATCH 06/22] fix: allow a fixed delay in the network simulator

A link whose delay_min equals its delay_max made the uniform distribution over
the empty half-open range panic.
---
 src/rust/src/simnet/router.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/src/simnet/router.rs b/src/rust/src/simnet/router.rs
index 087a34b..b6f0ec0 100644
--- a/src/rust/src/simnet/router.rs
+++ b/src/rust/src/simnet/router.rs
@@ -199,7 +199,7 @@ impl Link {
         //     config.delay_std_dev.as_secs_f64(),
         // );
         let delay_distribution = distributions::Uniform::from(
-            (config.delay_min.as_millis() as u64)..(config.delay_max.as_millis() as u64),
+            (config.delay_min.as_millis() as u64)..=(config.delay_max.as_millis() as u64),
         );
         let leaky_bucket = LeakyBucket::start(config.clone(), receiver, stopper.clone())?;
         Ok(Self {
-- 
2.43.0


From 2611a0acaeb046add9620ff3e260668d10d5ef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 07/22] fix: do not leak the peer connection observer when the
 call has no context

create_connection gave away its PeerConnectionObserver before asking for
the call's context; when that fails nobody deletes the observer.
---
 src/rust/src/ios/ios_platform.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/ios/ios_platform.rs b/src/rust/src/ios/ios_platform.rs
index a6f3b99..d472e0e 100644
--- a/src/rust/src/ios/ios_platform.rs
+++ b/src/rust/src/ios/ios_platform.rs
@@ -200,12 +200,15 @@ impl Platform for IosPlatform {
             false, /* enable_video_frame_content */
         )?;
 
+        // Get this before giving away the observer, so that it isn't leaked on failure.
+        let call_context = call.call_context()?;
+
         let app_connection_interface = (self.app_interface.onCreateConnectionInterface)(
             self.app_interface.object,
             // This takes an owned pointer.
             pc_observer.into_rffi().into_owned().as_ptr() as *mut std::ffi::c_void,
             remote_device_id,
-            call.call_context()?.object,
+            call_context.object,
             audio_jitter_buffer_max_packets,
             audio_jitter_buffer_max_target_delay_ms,
         );
-- 
2.43.0


From 05c63dce10d0a73894c53403fb70e58f30cd2738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 08/22] fix: release references handed to a null peer
 connection observer

Streams, receivers and frames arrive with an owned reference; when the
observer is null it was never released.
---
 src/rust/src/webrtc/peer_connection_observer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rust/src/webrtc/peer_connection_observer.rs b/src/rust/src/webrtc/peer_connection_observer.rs
index 13ef79f..27007d3 100644
--- a/src/rust/src/webrtc/peer_connection_observer.rs
+++ b/src/rust/src/webrtc/peer_connection_observer.rs
@@ -337,6 +337,8 @@ extern "C" fn pc_observer_OnAddStream<T>(
             .unwrap_or_else(|e| error!("Problems handling incoming media: {}", e));
     } else {
         error!("pc_observer_OnAddStream called with null observer");
+        // Release the reference that was passed to us.
+        drop(webrtc::Arc::from_owned(rffi_stream));
     }
 }
 
@@ -362,6 +364,8 @@ extern "C" fn pc_observer_OnAddAudioRtpReceiver<T>(
             .unwrap_or_else(|e| error!("Problems handling incoming audio: {}", e));
     } else {
         error!("pc_observer_OnAddAudioRtpReceiver called with null observer");
+        // Release the reference that was passed to us.
+        drop(webrtc::Arc::from_owned(rffi_track));
     }
 }
 
@@ -388,6 +392,8 @@ extern "C" fn pc_observer_OnAddVideoRtpReceiver<T>(
             .unwrap_or_else(|e| error!("Problems handling incoming audio: {}", e));
     } else {
         error!("pc_observer_OnAddVideoRtpReceiver called with null observer");
+        // Release the reference that was passed to us.
+        drop(webrtc::Arc::from_owned(rffi_track));
     }
 }
 
@@ -420,6 +426,8 @@ extern "C" fn pc_observer_OnVideoFrame<T>(
             .unwrap_or_else(|e| error!("Problems handling incoming video frame: {}", e));
     } else {
         error!("pc_observer_OnVideoFrame called with null observer");
+        // Release the reference that was passed to us.
+        drop(webrtc::Arc::from_owned(rffi_buffer));
     }
 }
 
-- 
2.43.0


From c10508374704cd603831ff751f35103ecb39882f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:09 +0000
Subject: [PATCH 09/22] fix: refuse to copy a string into a buffer of no size

dest_size - 1 wrapped around for a buffer of no size, and the whole string
was then written to it.
---
 src/rust/src/webrtc/audio_device_module_utils.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/webrtc/audio_device_module_utils.rs b/src/rust/src/webrtc/audio_device_module_utils.rs
index 65a45eb..0b840b9 100644
--- a/src/rust/src/webrtc/audio_device_module_utils.rs
+++ b/src/rust/src/webrtc/audio_device_module_utils.rs
@@ -227,7 +227,10 @@ pub fn copy_and_truncate_string(
     dest_size: usize,
 ) -> anyhow::Result<()> {
     // Leave room for the nul terminator.
-    let size = std::cmp::min(src.len(), dest_size - 1);
+    let max_size = dest_size
+        .checked_sub(1)
+        .ok_or(anyhow!("no room for the nul terminator"))?;
+    let size = std::cmp::min(src.len(), max_size);
     let c_str = CString::new(src.get(0..size).ok_or(anyhow!("couldn't get substring"))?)?;
     let c_str_bytes = c_str.as_bytes_with_nul();
     // Safety: dest has at least |dest_size| bytes allocated, and we won't
-- 
2.43.0


From de3ee4583c3f17664d860b3414df91535de61b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:09 +0000
Subject: [PATCH 10/22] fix: refuse null strings, arrays and clients from the
 application

Null URLs and root key strings count as invalid, null arrays of candidates,
resolutions or members are refused unless empty, and destroying a null HTTP
client does nothing.
---
 .../src/ios/api/call_manager_interface.rs     | 65 +++++++++++++++----
 src/rust/src/lite/call_links.rs               | 15 ++---
 src/rust/src/lite/ffi.rs                      | 11 ++++
 src/rust/src/lite/http.rs                     |  4 ++
 src/rust/src/lite/sfu.rs                      | 11 ++--
 5 files changed, 79 insertions(+), 27 deletions(-)

diff --git a/src/rust/src/ios/api/call_manager_interface.rs b/src/rust/src/ios/api/call_manager_interface.rs
index 3bf3ce0..4c9a638 100644
--- a/src/rust/src/ios/api/call_manager_interface.rs
+++ b/src/rust/src/ios/api/call_manager_interface.rs
@@ -92,6 +92,20 @@ impl AppByteSlice {
     }
 }
 
+/// Borrows an array from Swift. An empty array may be null, any other may not.
+///
+/// # Safety
+/// If not null, `ptr` must point at `count` elements that stay valid for `'a`.
+unsafe fn slice_from_app_array<'a, T>(ptr: *const T, count: size_t) -> Option<&'a [T]> {
+    if count == 0 {
+        return Some(&[]);
+    }
+    if ptr.is_null() {
+        return None;
+    }
+    Some(unsafe { slice::from_raw_parts(ptr, count) })
+}
+
 /// Structure for passing optional u16 values to/from Swift.
 #[repr(C)]
 #[derive(Debug)]
@@ -895,10 +909,19 @@ pub extern "C" fn ringrtcReceivedIceCandidates(
 
     let call_data = IosCallData::new_remote(remote_uuid);
 
-    let count = unsafe { (*appIceCandidateArray).count };
-    let candidates = unsafe { (*appIceCandidateArray).candidates };
-
-    let app_ice_candidates = unsafe { slice::from_raw_parts(candidates, count) };
+    let Some(app_ice_candidate_array) = (unsafe { appIceCandidateArray.as_ref() }) else {
+        error!("Invalid appIceCandidateArray");
+        return ptr::null_mut();
+    };
+    let Some(app_ice_candidates) = (unsafe {
+        slice_from_app_array(
+            app_ice_candidate_array.candidates,
+            app_ice_candidate_array.count,
+        )
+    }) else {
+        error!("Invalid candidates");
+        return ptr::null_mut();
+    };
     let mut ice_candidates = Vec::new();
 
     for app_ice_candidate in app_ice_candidates {
@@ -1434,10 +1457,19 @@ pub extern "C" fn ringrtcRequestVideo(
     appVideoRequestArray: *const AppVideoRequestArray,
     activeSpeakerHeight: u16,
 ) {
-    let count = unsafe { (*appVideoRequestArray).count };
-    let resolutions = unsafe { (*appVideoRequestArray).resolutions };
-
-    let app_resolutions = unsafe { slice::from_raw_parts(resolutions, count) };
+    let Some(app_video_request_array) = (unsafe { appVideoRequestArray.as_ref() }) else {
+        error!("Invalid appVideoRequestArray");
+        return;
+    };
+    let Some(app_resolutions) = (unsafe {
+        slice_from_app_array(
+            app_video_request_array.resolutions,
+            app_video_request_array.count,
+        )
+    }) else {
+        error!("Invalid resolutions");
+        return;
+    };
     let mut rendered_resolutions = Vec::new();
 
     for resolution in app_resolutions {
@@ -1543,10 +1575,19 @@ pub extern "C" fn ringrtcSetGroupMembers(
     clientId: group_call::ClientId,
     appGroupMemberInfoArray: *const AppGroupMemberInfoArray,
 ) {
-    let count = unsafe { (*appGroupMemberInfoArray).count };
-    let app_group_members = unsafe { (*appGroupMemberInfoArray).members };
-
-    let app_members = unsafe { slice::from_raw_parts(app_group_members, count) };
+    let Some(app_group_member_info_array) = (unsafe { appGroupMemberInfoArray.as_ref() }) else {
+        error!("Invalid appGroupMemberInfoArray");
+        return;
+    };
+    let Some(app_members) = (unsafe {
+        slice_from_app_array(
+            app_group_member_info_array.members,
+            app_group_member_info_array.count,
+        )
+    }) else {
+        error!("Invalid members");
+        return;
+    };
     let mut group_members = Vec::new();
 
     for member in app_members {
diff --git a/src/rust/src/lite/call_links.rs b/src/rust/src/lite/call_links.rs
index 9aaf443..8cb1e47 100644
--- a/src/rust/src/lite/call_links.rs
+++ b/src/rust/src/lite/call_links.rs
@@ -344,7 +344,7 @@ pub mod ios {
 
     use super::*;
     use crate::lite::{
-        ffi::ios::{cstr, rtc_Bytes, rtc_OptionalU16, rtc_String},
+        ffi::ios::{cstr, rtc_Bytes, rtc_OptionalU16, rtc_String, str_from_ptr},
         http,
         sfu::ios::rtc_sfu_Response,
     };
@@ -370,10 +370,7 @@ pub mod ios {
         context: *mut c_void,
         callback: extern "C" fn(context: *mut c_void, result: rtc_Bytes),
     ) -> bool {
-        let string = unsafe { CStr::from_ptr(string) };
-        let root_key = string
-            .to_str()
-            .ok()
+        let root_key = unsafe { str_from_ptr(string) }
             .and_then(|s| CallLinkRootKey::try_from(s).ok());
         match root_key {
             Some(key) => {
@@ -565,7 +562,7 @@ pub mod ios {
         info!("rtc_sfu_readCallLink():");
 
         if let Some(http_client) = unsafe { http_client.as_ref() } {
-            if let Ok(sfu_url) = unsafe { CStr::from_ptr(sfu_url).to_str() } {
+            if let Some(sfu_url) = unsafe { str_from_ptr(sfu_url) } {
                 if let Ok(link_root_key) = CallLinkRootKey::try_from(link_root_key.as_slice()) {
                     read_call_link(
                         http_client,
@@ -605,7 +602,7 @@ pub mod ios {
 
         let restrictions = from_i8_to_restrictions(restrictions);
         if let Some(http_client) = unsafe { http_client.as_ref() } {
-            if let Ok(sfu_url) = unsafe { CStr::from_ptr(sfu_url).to_str() } {
+            if let Some(sfu_url) = unsafe { str_from_ptr(sfu_url) } {
                 if let Ok(link_root_key) = CallLinkRootKey::try_from(link_root_key.as_slice()) {
                     create_call_link(
                         http_client,
@@ -648,7 +645,7 @@ pub mod ios {
         info!("rtc_sfu_updateCallLink():");
 
         if let Some(http_client) = unsafe { http_client.as_ref() } {
-            if let Ok(sfu_url) = unsafe { CStr::from_ptr(sfu_url).to_str() } {
+            if let Some(sfu_url) = unsafe { str_from_ptr(sfu_url) } {
                 if let Ok(link_root_key) = CallLinkRootKey::try_from(link_root_key.as_slice()) {
                     let new_name = if new_name.is_null() {
                         None
@@ -708,7 +705,7 @@ pub mod ios {
         info!("rtc_sfu_deleteCallLink():");
 
         if let Some(http_client) = unsafe { http_client.as_ref() } {
-            if let Ok(sfu_url) = unsafe { CStr::from_ptr(sfu_url).to_str() } {
+            if let Some(sfu_url) = unsafe { str_from_ptr(sfu_url) } {
                 if let Ok(link_root_key) = CallLinkRootKey::try_from(link_root_key.as_slice()) {
                     delete_call_link(
                         http_client,
diff --git a/src/rust/src/lite/ffi.rs b/src/rust/src/lite/ffi.rs
index 44dfd1a..62779f9 100644
--- a/src/rust/src/lite/ffi.rs
+++ b/src/rust/src/lite/ffi.rs
@@ -157,6 +157,17 @@ pub mod ios {
         }
     }
 
+    /// Borrows a C string. A null pointer or invalid UTF-8 gives `None`.
+    ///
+    /// # Safety
+    /// If not null, `ptr` must be a C string that stays valid for `'a`.
+    pub unsafe fn str_from_ptr<'a>(ptr: *const std::ffi::c_char) -> Option<&'a str> {
+        if ptr.is_null() {
+            return None;
+        }
+        unsafe { std::ffi::CStr::from_ptr(ptr) }.to_str().ok()
+    }
+
     /// Creates a static [`std::ffi::CStr`] from a literal.
     ///
     /// Implicitly adds a null terminator. (It's up to you to make sure there are no embedded NUL
diff --git a/src/rust/src/lite/http.rs b/src/rust/src/lite/http.rs
index 560778c..eed155d 100644
--- a/src/rust/src/lite/http.rs
+++ b/src/rust/src/lite/http.rs
@@ -320,6 +320,10 @@ pub mod ios {
     /// client_ptr must come from rtc_http_Client_create and not already be destroyed
     #[unsafe(no_mangle)]
     pub unsafe extern "C" fn rtc_http_Client_destroy(client_ptr: *mut Client) {
+        if client_ptr.is_null() {
+            error!("null client passed into rtc_http_Client_destroy");
+            return;
+        }
         unsafe {
             let client = Box::from_raw(client_ptr);
             drop(client)
diff --git a/src/rust/src/lite/sfu.rs b/src/rust/src/lite/sfu.rs
index 82622dc..8adc900 100644
--- a/src/rust/src/lite/sfu.rs
+++ b/src/rust/src/lite/sfu.rs
@@ -731,16 +731,15 @@ pub fn join(
 
 #[cfg(any(target_os = "ios", feature = "check-all"))]
 pub mod ios {
-    use std::{
-        ffi::{CStr, c_char},
-        sync::Arc,
-    };
+    use std::{ffi::c_char, sync::Arc};
 
     use libc::{c_void, size_t};
 
     use crate::lite::{
         call_links::{self, CallLinkMemberResolver, CallLinkRootKey},
-        ffi::ios::{FromOrDefault, rtc_Bytes, rtc_OptionalU16, rtc_OptionalU32, rtc_String},
+        ffi::ios::{
+            FromOrDefault, rtc_Bytes, rtc_OptionalU16, rtc_OptionalU32, rtc_String, str_from_ptr,
+        },
         http,
         sfu::{self, Delegate, GroupMember, PeekArgs, PeekInfo, PeekResult},
     };
@@ -804,7 +803,7 @@ pub mod ios {
         info!("rtc_sfu_peekCallLink():");
 
         if let Some(http_client) = unsafe { http_client.as_ref() } {
-            if let Ok(sfu_url) = unsafe { CStr::from_ptr(sfu_url).to_str() } {
+            if let Some(sfu_url) = unsafe { str_from_ptr(sfu_url) } {
                 if let Ok(link_root_key) = CallLinkRootKey::try_from(link_root_key.as_slice()) {
                     super::peek(
                         http_client,
-- 
2.43.0


From 0f80eaab80cb99bdd6ebbf3bab92e4e87d1c9b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:09 +0000
Subject: [PATCH 11/22] fix: accept null strings and refuse null packets from
 the media engine

Strings given to the callbacks for log messages, SDP failures, candidates,
network routes and statistics reports were read without a null check.
---
 src/rust/src/webrtc/injectable_network.rs       |  4 ++++
 src/rust/src/webrtc/logging.rs                  |  6 +-----
 src/rust/src/webrtc/peer_connection_observer.rs | 12 ++++--------
 src/rust/src/webrtc/ptr.rs                      | 15 +++++++++++++++
 src/rust/src/webrtc/sdp_observer.rs             | 12 ++----------
 src/rust/src/webrtc/stats_observer.rs           |  6 +-----
 6 files changed, 27 insertions(+), 28 deletions(-)

diff --git a/src/rust/src/webrtc/injectable_network.rs b/src/rust/src/webrtc/injectable_network.rs
index 7feb47a..3abaab1 100644
--- a/src/rust/src/webrtc/injectable_network.rs
+++ b/src/rust/src/webrtc/injectable_network.rs
@@ -171,6 +171,10 @@ extern "C" fn Rust_InjectableNetworkSender_SendUdp(
 
     // Safe because the sender should still be alive (it was just passed to us)
     if let Some(sender) = unsafe { sender.as_ref() } {
+        if data.is_null() {
+            error!("Rust_InjectableNetworkSender_SendUdp called with null data");
+            return;
+        }
         // Copy the data because it won't be valid any more.
         let data = unsafe { std::slice::from_raw_parts(data.as_ptr(), size) }.to_vec();
         let packet = Packet {
diff --git a/src/rust/src/webrtc/logging.rs b/src/rust/src/webrtc/logging.rs
index ebf6cbd..76f327b 100644
--- a/src/rust/src/webrtc/logging.rs
+++ b/src/rust/src/webrtc/logging.rs
@@ -31,11 +31,7 @@ extern "C" fn log_sink_OnLogMessage(
     severity: LogSeverity,
     c_message: webrtc::ptr::Borrowed<std::os::raw::c_char>,
 ) {
-    let message = unsafe {
-        std::ffi::CStr::from_ptr(c_message.as_ptr())
-            .to_string_lossy()
-            .into_owned()
-    };
+    let message = unsafe { c_message.to_string_lossy() };
     match severity {
         LogSeverity::Error => error!("{}", message),
         LogSeverity::Warn => warn!("{}", message),
diff --git a/src/rust/src/webrtc/peer_connection_observer.rs b/src/rust/src/webrtc/peer_connection_observer.rs
index 27007d3..538ee81 100644
--- a/src/rust/src/webrtc/peer_connection_observer.rs
+++ b/src/rust/src/webrtc/peer_connection_observer.rs
@@ -6,7 +6,7 @@
 //! WebRTC Peer Connection Observer
 
 use std::{
-    ffi::CStr, marker::PhantomData, net::SocketAddr, os::raw::c_char, slice, time::SystemTime,
+    marker::PhantomData, net::SocketAddr, os::raw::c_char, slice, time::SystemTime,
 };
 
 use libc::size_t;
@@ -199,11 +199,7 @@ extern "C" fn pc_observer_OnIceCandidate<T>(
         info!("pc_observer_OnIceCandidate: {}", observer.log_id());
         // Safe because the candidate should still be alive (it was just passed to us)
         if let Some(cpp_candidate) = unsafe { cpp_candidate.as_ref() } {
-            let sdp = unsafe {
-                CStr::from_ptr(cpp_candidate.sdp.as_ptr())
-                    .to_string_lossy()
-                    .into_owned()
-            };
+            let sdp = unsafe { cpp_candidate.sdp.to_string_lossy() };
             // ICE candidates are the same for V2 and V3 and V4.
             let ice_candidate = signaling::IceCandidate::from_v3_sdp(sdp.clone());
             let relay_protocol = if cpp_candidate.is_relayed {
@@ -297,9 +293,9 @@ extern "C" fn pc_observer_OnIceNetworkRouteChange<T>(
         );
 
         let local_description =
-            redact_string(unsafe { CStr::from_ptr(local_description.as_ptr()) }.to_string_lossy());
+            redact_string(unsafe { local_description.to_string_lossy() });
         let remote_description =
-            redact_string(unsafe { CStr::from_ptr(remote_description.as_ptr()) }.to_string_lossy());
+            redact_string(unsafe { remote_description.to_string_lossy() });
 
         info!(
             "ice_network_route_change\t{}\n local: {}\nremote: {}",
diff --git a/src/rust/src/webrtc/ptr.rs b/src/rust/src/webrtc/ptr.rs
index a6ca09a..25ad8f3 100644
--- a/src/rust/src/webrtc/ptr.rs
+++ b/src/rust/src/webrtc/ptr.rs
@@ -130,6 +130,21 @@ impl<T> Borrowed<T> {
     }
 }
 
+impl Borrowed<std::ffi::c_char> {
+    /// Copies a C string, with invalid UTF-8 replaced. A null string is copied as an empty one.
+    ///
+    /// # Safety
+    /// If not null, the pointee must be a valid C string.
+    pub unsafe fn to_string_lossy(&self) -> String {
+        if self.is_null() {
+            return String::new();
+        }
+        unsafe { std::ffi::CStr::from_ptr(self.as_ptr()) }
+            .to_string_lossy()
+            .into_owned()
+    }
+}
+
 impl<T> Copy for Borrowed<T> {}
 
 impl<T> Clone for Borrowed<T> {
diff --git a/src/rust/src/webrtc/sdp_observer.rs b/src/rust/src/webrtc/sdp_observer.rs
index e0458b2..9c57630 100644
--- a/src/rust/src/webrtc/sdp_observer.rs
+++ b/src/rust/src/webrtc/sdp_observer.rs
@@ -585,11 +585,7 @@ extern "C" fn csd_observer_on_failure(
     err_message: webrtc::ptr::Borrowed<c_char>,
     err_type: i32,
 ) {
-    let err_string: String = unsafe {
-        CStr::from_ptr(err_message.as_ptr())
-            .to_string_lossy()
-            .into_owned()
-    };
+    let err_string: String = unsafe { err_message.to_string_lossy() };
     error!(
         "csd_observer_on_failure(): {}, type: {}",
         err_string, err_type
@@ -759,11 +755,7 @@ extern "C" fn ssd_observer_on_failure(
     err_message: webrtc::ptr::Borrowed<c_char>,
     err_type: i32,
 ) {
-    let err_string: String = unsafe {
-        CStr::from_ptr(err_message.as_ptr())
-            .to_string_lossy()
-            .into_owned()
-    };
+    let err_string: String = unsafe { err_message.to_string_lossy() };
     error!(
         "ssd_observer_on_failure(): {}, type: {}",
         err_string, err_type
diff --git a/src/rust/src/webrtc/stats_observer.rs b/src/rust/src/webrtc/stats_observer.rs
index 63f0207..dc70a4f 100644
--- a/src/rust/src/webrtc/stats_observer.rs
+++ b/src/rust/src/webrtc/stats_observer.rs
@@ -1434,11 +1434,7 @@ extern "C" fn stats_observer_on_stats_complete(
 ) {
     // Safe because the observer should still be alive (it was just passed to us)
     if let Some(stats_observer) = unsafe { stats_observer.as_mut() } {
-        let report_json = unsafe {
-            std::ffi::CStr::from_ptr(report_json.as_ptr())
-                .to_string_lossy()
-                .into_owned()
-        };
+        let report_json = unsafe { report_json.to_string_lossy() };
         // Safe because the values should still be alive (it was just passed to us)
         if let Some(values) = unsafe { values.as_ref() } {
             stats_observer.on_stats_complete(values, report_json);
-- 
2.43.0


From a5e73bc3960ff0364354f7d89f91d5bcf443cff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:50 +0000
Subject: [PATCH 12/22] fix: redact IPv6 addresses with an embedded IPv4
 address completely

---
 src/rust/src/core/util.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rust/src/core/util.rs b/src/rust/src/core/util.rs
index 6d57d14..4b00e13 100644
--- a/src/rust/src/core/util.rs
+++ b/src/rust/src/core/util.rs
@@ -160,7 +160,8 @@ fn redact_ice_password(text: Cow<'_, str>) -> Cow<'_, str> {
 // IPV6SEG  = [0-9a-fA-F]{1,4}
 // IPV6ADDR = (
 //            fe80:(:IPV6SEG){0,4}%[0-9a-zA-Z]{1,}|  # fe80::7:8%eth0     fe80::7:8%1  (link-local IPv6 addresses with zone index)
-//            (::)?(IPV6SEG:){1,4}:IPV4ADDR          # 2001:db8:3:4::192.0.2.33  64:ff9b::192.0.2.33 (IPv4-Embedded IPv6 Address)
+//            (IPV6SEG:){6,6}IPV4ADDR                # 1:2:3:4:5:6:192.0.2.33 (IPv4-Embedded IPv6 Address)
+//            (:|(IPV6SEG:){1,5}):(IPV6SEG:){0,5}IPV4ADDR # 2001:db8:3:4::192.0.2.33  64:ff9b::192.0.2.33  64:ff9b::1:192.0.2.33
 //            (IPV6SEG:){7,7}IPV6SEG|                # 1:2:3:4:5:6:7:8
 //            (IPV6SEG:){1,1}(:IPV6SEG){1,6}|        # 1::3:4:5:6:7:8     1::3:4:5:6:7:8   1::8
 //            (IPV6SEG:){1,2}(:IPV6SEG){1,5}|        # 1::4:5:6:7:8       1:2::4:5:6:7:8   1:2::8
@@ -182,7 +183,8 @@ fn redact_ipv6(text: Cow<'_, str>) -> Cow<'_, str> {
     let re = regex_aot::regex!(
         "\
         [Ff][Ee]80:(:(x|[0-9a-fA-F]{0,4})){0,4}%[0-9a-zA-Z]{1,}|\
-        (::)?([0-9a-fA-F]{1,4}:){1,4}:([0-9]{1,3}\\.){3,3}(x|[0-9]{1,3})|\
+        ([0-9a-fA-F]{1,4}:){6,6}([0-9]{1,3}\\.){3,3}(x|[0-9]{1,3})|\
+        (:|([0-9a-fA-F]{1,4}:){1,5}):([0-9a-fA-F]{1,4}:){0,5}([0-9]{1,3}\\.){3,3}(x|[0-9]{1,3})|\
         ((x|[0-9a-fA-F]{1,4}):){7,7}(x|[0-9a-fA-F]{1,4})|\
         ([0-9a-fA-F]{1,4}:){1,1}(:(x|[0-9a-fA-F]{1,4})){1,6}|\
         ([0-9a-fA-F]{1,4}:){1,2}(:(x|[0-9a-fA-F]{1,4})){1,5}|\
-- 
2.43.0


From b75961bdf276a519d2b306c07ca3bc2a6178f641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:50 +0000
Subject: [PATCH 13/22] fix: redact every device name in a log message, not
 just the first match

---
 .../src/webrtc/audio_device_module_utils.rs   | 34 ++++++++++---------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/rust/src/webrtc/audio_device_module_utils.rs b/src/rust/src/webrtc/audio_device_module_utils.rs
index 0b840b9..45e14ec 100644
--- a/src/rust/src/webrtc/audio_device_module_utils.rs
+++ b/src/rust/src/webrtc/audio_device_module_utils.rs
@@ -272,24 +272,26 @@ pub fn redact_for_logging(s: &str) -> String {
     }
 }
 
-/// Redact all capturing groups (except group 0) with |redact_for_logging|
-/// if the regex matches. Otherwise, return None.
+/// Redact all capturing groups (except group 0) of all matches with
+/// |redact_for_logging| if the regex matches. Otherwise, return None.
 pub fn redact_by_regex(re: &Regex, s: &str) -> Option<String> {
-    if re.is_match(s) {
-        Some(
-            re.replace(s, |caps: &regex::Captures| {
-                let mut out = s.to_string();
-                // Skip group 0 (the entire match)
-                for group in caps.iter().skip(1).flatten() {
-                    out = out.replace(group.as_str(), &redact_for_logging(group.as_str()));
-                }
-                out
-            })
-            .to_string(),
-        )
-    } else {
-        None
+    if !re.is_match(s) {
+        return None;
+    }
+    let mut groups = vec![];
+    for caps in re.captures_iter(s) {
+        // Skip group 0 (the entire match)
+        for group in caps.iter().skip(1).flatten() {
+            groups.push(group.as_str());
+        }
+    }
+    // Start with the longest so that none is missed because a shorter one inside it is already gone.
+    groups.sort_by_key(|group| std::cmp::Reverse(group.len()));
+    let mut out = s.to_string();
+    for group in groups {
+        out = out.replace(group, &redact_for_logging(group));
     }
+    Some(out)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 62e19ab1e16fbdba73f8fcf87d88a5d022861b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:50 +0000
Subject: [PATCH 14/22] fix: don't log the membership proof

---
 src/rust/src/core/call_manager.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index a5ed7cc..49a6364 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -3020,7 +3020,7 @@ where
                 }),
             );
         } else {
-            error!("Invalid membership proof: {:?}", membership_proof);
+            error!("Invalid membership proof");
         }
     }
 
-- 
2.43.0


From 9678fe2054c6b1e8ed83e6e782f5b38f85022b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:14 +0000
Subject: [PATCH 15/22] fix: a refused call() no longer ends the active call
 with the same peer

When call() or received_offer() failed, the active call was ended whenever
its remote peer was the one named, even if the failed request had another
call id, e.g. a second call() to the peer of the call in progress, which is
refused because the call manager is busy. Only end the active call if it is
the one the failed request created.
---
 src/rust/src/core/call_manager.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 49a6364..7096e9c 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -2150,6 +2150,7 @@ where
     ) {
         info!("internal_create_api_error(): error: {}", error);
         if let Ok(active_call) = self.active_call()
+            && active_call.call_id() == call_id
             && self.remote_peer_equals_active(&active_call, remote_peer)
         {
             // The task managed to create the active call and then
-- 
2.43.0


From f56643938c24aa2ae261c2d49bc9ab18af69422b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:54 +0000
Subject: [PATCH 16/22] fix: end a call only once when several threads end it
 at the same time

The active call was looked up and only later cleared, so a local hangup, a
remote hangup, a timeout and a failure racing on different threads could
each terminate the same call: the application was told up to three times
that it ended, and a call made in between could lose its active call_id and
the busy flag. Clear the active call and release busy in one step, only if
the call is still the active one, and terminate it only then.
---
 src/rust/src/core/call_manager.rs | 52 +++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 7096e9c..e35b562 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -1029,6 +1029,21 @@ where
         Ok(())
     }
 
+    /// Clears the active call_id and releases busy, but only if the given call is
+    /// (still) the active one. Returns whether it was, so that when a call is ended
+    /// from several threads at once only one of them goes on to terminate it.
+    fn release_active_call(&mut self, call_id: CallId) -> Result<bool> {
+        let mut busy = self.busy.lock()?;
+        let mut active_call_id = self.active_call_id.lock()?;
+        if *active_call_id != Some(call_id) {
+            info!("release_active_call(): skipping, not the active call");
+            return Ok(false);
+        }
+        *active_call_id = None;
+        *busy = false;
+        Ok(true)
+    }
+
     /// Terminates Call and optionally notifies application of the reason why.
     /// Also removes/drops it from the map.
     fn terminate_and_drop_call(&mut self, call_id: CallId) -> Result<()> {
@@ -1135,19 +1150,26 @@ where
         })
     }
 
-    /// Terminates the active call.
-    fn terminate_active_call(&mut self, send_hangup: bool, reason: CallEndReason) -> Result<()> {
+    /// Terminates the specified call if it is the active call.
+    fn terminate_active_call(
+        &mut self,
+        call_id: CallId,
+        send_hangup: bool,
+        reason: CallEndReason,
+    ) -> Result<()> {
         info!("terminate_active_call():");
 
-        if !self.call_active()? {
-            info!("terminate_active_call(): skipping, no active call");
+        let call = match self.active_call() {
+            Ok(call) if call.call_id() == call_id => call,
+            _ => {
+                info!("terminate_active_call(): skipping, not the active call");
+                return Ok(());
+            }
+        };
+        if !self.release_active_call(call_id)? {
             return Ok(());
         }
 
-        let call = self.active_call()?;
-        self.clear_active_call()?;
-        self.release_busy()?;
-
         let hangup = if send_hangup {
             Some(signaling::Hangup::Normal)
         } else {
@@ -1230,8 +1252,9 @@ where
         hangup: Option<signaling::Hangup>,
         reason: CallEndReason,
     ) -> Result<()> {
-        self.clear_active_call()?;
-        self.release_busy()?;
+        if !self.release_active_call(active_call.call_id())? {
+            return Ok(());
+        }
         self.terminate_call(active_call, hangup, Some(reason))
     }
 
@@ -1324,6 +1347,7 @@ where
                         call_id
                     );
                     let _ = self.terminate_active_call(
+                        call_id,
                         call.should_send_hangup_on_failure(),
                         CallEndReason::SignalingFailure,
                     );
@@ -2467,8 +2491,8 @@ where
 
         if self.call_is_active(call_id)? {
             match end_reason_override {
-                Some(end_reason) => self.terminate_active_call(false, end_reason),
-                None => self.terminate_active_call(false, CallEndReason::RemoteHangup),
+                Some(end_reason) => self.terminate_active_call(call_id, false, end_reason),
+                None => self.terminate_active_call(call_id, false, CallEndReason::RemoteHangup),
             }
         } else {
             info!("remote_hangup(): ignoring for inactive call");
@@ -2514,7 +2538,7 @@ where
         info!("timeout(): call_id: {}", call_id);
 
         if self.call_is_active(call_id)? {
-            self.terminate_active_call(true, CallEndReason::Timeout)
+            self.terminate_active_call(call_id, true, CallEndReason::Timeout)
         } else {
             info!("timeout(): ignoring for inactive call");
             Ok(())
@@ -2528,6 +2552,7 @@ where
         if self.call_is_active(call_id)? {
             let call = self.active_call()?;
             self.terminate_active_call(
+                call_id,
                 call.should_send_hangup_on_failure(),
                 CallEndReason::ConnectionFailure,
             )
@@ -2547,6 +2572,7 @@ where
         if self.call_is_active(call_id)? {
             let call = self.active_call()?;
             self.terminate_active_call(
+                call_id,
                 call.should_send_hangup_on_failure(),
                 CallEndReason::InternalFailure,
             )
-- 
2.43.0


From c5c189a492ebe9bf6198ec066a1625d9bee249b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:07 +0000
Subject: [PATCH 17/22] fix: a failed message of a call that is ending doesn't
 end it again

A call that is not active but still known is already being terminated. When
a message of it failed to be sent just then, it was terminated again, so the
application was told three times that the call ended.
---
 src/rust/src/core/call_manager.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index e35b562..7a9c80d 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -1353,16 +1353,12 @@ where
                     );
                 }
             } else {
+                // A call that isn't active anymore is already being terminated, and the
+                // application was told why.
                 info!(
-                    "handle_message_send_failure(): id: {}, terminating call",
+                    "handle_message_send_failure(): id: {}, call is already ending",
                     call_id
                 );
-
-                let hangup = call
-                    .should_send_hangup_on_failure()
-                    .then_some(signaling::Hangup::Normal);
-
-                self.terminate_call(call, hangup, Some(CallEndReason::SignalingFailure))?;
             }
         } else {
             info!("handle_message_send_failure(): no matching call found");
-- 
2.43.0


From 23c0c8552a32d0cc2f9a2e32ee410996fcb1a2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:03 +0000
Subject: [PATCH 18/22] fix: close down a call even if telling that it ended
 fails

terminate_call() returned at the first step that failed, so when the
application's on_call_ended() failed the call was no longer the active one
but was never closed: its connections stayed up and kept sending media. And
when closing it failed, the application was told a second time that it
ended. Log what fails on the way and always go on to close the call.
---
 src/rust/src/core/call_manager.rs | 56 +++++++++++++++++--------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 7a9c80d..9b5c1da 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -1109,45 +1109,49 @@ where
 
         info!("terminate_call(): call_id: {}", call_id);
 
-        self.trim_messages(call_id)?;
+        // Whatever goes wrong on the way, always get to closing down the call.
+        if let Err(err) = self.trim_messages(call_id) {
+            error!("terminate_call(): can't trim messages: {}", err);
+        }
 
+        let mut ended_result = Ok(());
         if let Some(reason) = reason {
-            let remote_peer = call.remote_peer()?;
-            let summary = call
-                .summary()
-                .build_call_summary(Some(call_id.call_summary_hash()), reason);
-            self.on_call_ended(&remote_peer, call_id, reason, summary)?;
+            ended_result = try_scoped(|| {
+                let remote_peer = call.remote_peer()?;
+                let summary = call
+                    .summary()
+                    .build_call_summary(Some(call_id.call_summary_hash()), reason);
+                self.on_call_ended(&remote_peer, call_id, reason, summary)
+            });
+            if let Err(err) = &ended_result {
+                error!("terminate_call(): can't tell that the call ended: {}", err);
+            }
         }
 
         if let Some(hangup) = hangup {
             // All connections send hangup via RTP data.
-            call.inject_send_hangup_via_rtp_data_to_all(hangup)?;
+            if let Err(err) = call.inject_send_hangup_via_rtp_data_to_all(hangup) {
+                error!("terminate_call(): can't send hangup via RTP data: {}", err);
+            }
         }
 
         let mut call_manager = self.clone();
         self.worker_spawn(move || {
-            let err = try_scoped(|| {
-                if let Some(hangup) = hangup {
-                    // If we want to send a hangup message, be sure that
-                    // the call actually should send one.
-                    if call.should_send_hangup() {
-                        call.send_hangup_via_signaling_to_all(hangup)?;
-                    }
+            if let Some(hangup) = hangup {
+                // If we want to send a hangup message, be sure that
+                // the call actually should send one.
+                if call.should_send_hangup()
+                    && let Err(err) = call.send_hangup_via_signaling_to_all(hangup)
+                {
+                    error!("terminate_call(): can't send hangup: {}", err);
                 }
-                call_manager.terminate_and_drop_call(call_id)
-            });
-            if let Err(err) = err {
+            }
+            if let Err(err) = call_manager.terminate_and_drop_call(call_id) {
                 error!("Conclude call failed: {}", err);
-                if let Ok(remote_peer) = call.remote_peer() {
-                    let _ = call_manager.on_call_ended(
-                        &remote_peer,
-                        call_id,
-                        CallEndReason::InternalFailure,
-                        CallSummary::default(),
-                    );
-                }
             }
-        })
+        })?;
+
+        ended_result
     }
 
     /// Terminates the specified call if it is the active call.
-- 
2.43.0


From e4614c56fb1e0128c2f66e7fb1f6b6ab18c7af59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:03 +0000
Subject: [PATCH 19/22] fix: conclude a call even if its last references are
 dropped at once

Dropping a Call looked at the reference count before giving up its own
reference. When the last two references were dropped on two threads at the
same time neither saw itself as the last one, and the application was never
told that the call concluded. Let exactly one of them find out.
---
 src/rust/src/core/call.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/core/call.rs b/src/rust/src/core/call.rs
index fa505a1..3aef5db 100644
--- a/src/rust/src/core/call.rs
+++ b/src/rust/src/core/call.rs
@@ -115,6 +115,8 @@ where
     call_summary: DirectCallSummary,
     /// Registry for accessing large, pre-loaded assets
     asset_registry: AssetRegistry,
+    /// Shared by all references to this call, to find out which of them is dropped last.
+    reference: Option<Arc<()>>,
 }
 
 impl<T> fmt::Display for Call<T>
@@ -151,7 +153,10 @@ where
     T: Platform,
 {
     fn drop(&mut self) {
-        if self.ref_count() == 1 {
+        // Two references may be dropped at the same time, in which case looking at the
+        // reference count wouldn't tell which one is the last.
+        let is_last = self.reference.take().and_then(Arc::into_inner).is_some();
+        if is_last {
             info!("Call: Dropping last reference: {}", self.call_id);
 
             // This is the last call reference, so let the application
@@ -198,6 +203,7 @@ where
             forking: Arc::clone(&self.forking),
             call_summary: self.call_summary.clone(),
             asset_registry: self.asset_registry.clone(),
+            reference: self.reference.clone(),
         }
     }
 }
@@ -245,6 +251,7 @@ where
             forking: Arc::new(CallMutex::new(None, "forking")),
             call_summary: DirectCallSummary::default(),
             asset_registry,
+            reference: Some(Arc::new(())),
         };
 
         Ok(call)
-- 
2.43.0


From 202a77481c86adbcd24a8b0d9de571d8c311f11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:21 +0000
Subject: [PATCH 20/22] fix: hold early ICE candidates with the peer that sent
 them

Candidates that arrive before their call were all kept under the peer that sent the
first one, so a candidate another peer sent with the same call id was added to the call.
---
 src/rust/src/core/call_manager.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 9b5c1da..005c5fc 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -240,9 +240,9 @@ where
     #[default]
     None,
     IceCandidates {
-        remote_peer: <T as Platform>::AppRemotePeer,
         call_id: CallId,
-        received: Vec<signaling::ReceivedIce>,
+        // Each with the peer that sent it.
+        received: Vec<(<T as Platform>::AppRemotePeer, signaling::ReceivedIce)>,
     },
     Hangup {
         remote_peer: <T as Platform>::AppRemotePeer,
@@ -270,7 +270,7 @@ where
                 if received.len() >= 30 {
                     received.remove(0);
                 }
-                received.push(new_received);
+                received.push((remote_peer, new_received));
                 return;
             }
             PendingCallMessages::Hangup { call_id, .. } if call_id == &new_call_id => {
@@ -284,9 +284,8 @@ where
             PendingCallMessages::None => {}
         }
         *self = PendingCallMessages::IceCandidates {
-            remote_peer,
             call_id: new_call_id,
-            received: vec![new_received],
+            received: vec![(remote_peer, new_received)],
         }
     }
 
@@ -1555,12 +1554,10 @@ where
 
                 match std::mem::take(&mut *self.pending_call_messages.lock()?) {
                     PendingCallMessages::None => {}
-                    PendingCallMessages::IceCandidates {
-                        remote_peer: pending_remote_peer,
-                        call_id,
-                        received,
-                    } if call_id == incoming_call_id => {
-                        for received in received {
+                    PendingCallMessages::IceCandidates { call_id, received }
+                        if call_id == incoming_call_id =>
+                    {
+                        for (pending_remote_peer, received) in received {
                             if self
                                 .platform
                                 .lock()?
-- 
2.43.0


From a2c45a0ed97e4b1b691775213428b7754e8d325d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:27 +0000
Subject: [PATCH 21/22] fix: take the bandwidth controller before the webrtc
 lock in set_network_route

---
 src/rust/src/core/connection.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/rust/src/core/connection.rs b/src/rust/src/core/connection.rs
index 4e62611..7a03372 100644
--- a/src/rust/src/core/connection.rs
+++ b/src/rust/src/core/connection.rs
@@ -1011,11 +1011,13 @@ where
 
     /// Update the current network route.
     pub fn set_network_route(&self, network_route: NetworkRoute) -> Result<()> {
-        if let Ok(mut webrtc) = self
-            .webrtc
-            .lock()
-            .inspect_err(|e| error!("couldn't get webrtc lock: {}", e))
-            && let Ok(old_network_route) = self.network_route()
+        // Look at the bandwidth controller before taking the webrtc lock: these locks are
+        // taken in the other order by update_bandwidth_controller.
+        if let Ok(old_network_route) = self.network_route()
+            && let Ok(mut webrtc) = self
+                .webrtc
+                .lock()
+                .inspect_err(|e| error!("couldn't get webrtc lock: {}", e))
             && (old_network_route.local_relayed != network_route.local_relayed
                 || old_network_route.remote_relayed != network_route.remote_relayed
                 || old_network_route.local_relay_protocol != network_route.local_relay_protocol)
-- 
2.43.0


From 5ebba7212ef0a5f13628bb8dfc70fe0cb5b12751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:27 +0000
Subject: [PATCH 22/22] fix: don't hold a connection's call lock while calling
 out

---
 src/rust/src/core/connection.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rust/src/core/connection.rs b/src/rust/src/core/connection.rs
index 7a03372..2cdf78a 100644
--- a/src/rust/src/core/connection.rs
+++ b/src/rust/src/core/connection.rs
@@ -1366,7 +1366,8 @@ where
         // need to signal the message queue that there is something
         // to send for this Connection.
         if buffered_count_before == 0 && buffered_count_after > 0 {
-            let call = self.call()?;
+            // Don't hold the lock while messages are sent: see set_state.
+            let call = self.call()?.clone();
             let broadcast = self.connection_type == ConnectionType::OutgoingParent;
             call.send_buffered_local_ice_candidates(self.clone(), broadcast)?
         }
@@ -1622,7 +1623,8 @@ where
         );
 
         let incoming_media = {
-            let call = self.call.lock()?;
+            // Don't hold the lock while calling into the platform: see tick.
+            let call = self.call()?.clone();
             // When PeerConnection::SetRemoteDescription triggers PeerConnectionObserver::OnAddStream,
             // the MediaStream is wrapped via create_incoming_media, which does the following on different platforms:
             // - Android: wraps it in layers of JavaMediaStream/jni::JavaMediaStream.
@@ -1667,7 +1669,7 @@ where
             }
         };
 
-        let call = self.call()?;
+        let call = self.call()?.clone();
         call.connect_incoming_media(incoming_media)
     }
 
-- 
2.43.0

