//! Empty stand-in; only test code of ringrtc uses libsignal-core.
