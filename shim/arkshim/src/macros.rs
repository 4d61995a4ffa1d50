#[macro_export]
macro_rules! to_bytes {
    ($($x:expr),* $(,)?) => {{
        let mut buf: Vec<u8> = Vec::new();
        let r: std::io::Result<()> = (|| { $( $crate::ff::ToBytes::write(&$x, &mut buf)?; )* Ok(()) })();
        r.map(|_| buf)
    }};
}
#[macro_export]
macro_rules! start_timer { ($msg:expr) => { { let _ = || { let _ = $msg(); }; } }; ($msg:expr, $x:expr) => { { let _ = || { let _ = $msg(); let _ = &$x; }; } }; }
#[macro_export]
macro_rules! end_timer { ($t:expr) => { { let _ = $t; } }; ($t:expr, $msg:expr) => { { let _ = $t; let _ = || { let _ = $msg(); }; } }; }
