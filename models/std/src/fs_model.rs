//! A file system of one file: `open` gives the bytes a harness has registered.
use real_std::io::{self, Read};
use real_std::path::Path;
use real_std::vec::Vec;

static mut CONTENT: Option<Vec<u8>> = None;
#[allow(static_mut_refs)]
pub fn set_file(content: Option<Vec<u8>>) {
    unsafe { CONTENT = content }
}
static mut BROKEN: bool = false;
/// Files open but every read fails (as of a directory).
pub fn set_broken(on: bool) {
    unsafe { BROKEN = on }
}
#[derive(Debug)]
pub struct File {
    data: Vec<u8>,
    pos: usize,
}
impl File {
    #[allow(static_mut_refs)]
    pub fn open<P: AsRef<Path>>(_: P) -> io::Result<File> {
        if unsafe { BROKEN } { return Ok(File { data: Vec::new(), pos: 0 }); }
        match unsafe { CONTENT.as_ref() } {
            Some(c) => Ok(File { data: c.clone(), pos: 0 }),
            None => Err(io::Error::from(io::ErrorKind::NotFound)),
        }
    }
}
impl Read for File {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if unsafe { BROKEN } { return Err(io::Error::from(io::ErrorKind::IsADirectory)); }
        let n = real_std::cmp::min(buf.len(), self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
pub fn read_to_string<P: AsRef<Path>>(p: P) -> io::Result<real_std::string::String> {
    let mut f = File::open(p)?;
    f.read(&mut [])?;
    real_std::string::String::from_utf8(f.data).map_err(|_| io::Error::from(io::ErrorKind::InvalidData))
}
