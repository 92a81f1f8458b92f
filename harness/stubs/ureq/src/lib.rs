//! The network as the build scripts see it: what a server sends is a file, so that
//! refused connections, resets and short reads are the simulated system's.
use std::fs::File;
use std::io::{self, Read};

#[derive(Debug)]
pub struct Error(io::Error);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Error {}

pub struct Request(String);
pub fn get(url: &str) -> Request {
    Request(url.to_string())
}
/// Where the answer to a request for `url` lies below the directory of all answers.
pub fn file_of(url: &str) -> String {
    url.chars().map(|c| if c.is_ascii_alphanumeric() || c == '.' || c == '-' { c } else { '_' }).collect()
}
impl Request {
    pub fn call(self) -> Result<Response, Error> {
        let net = std::env::var("LSIM_NET").unwrap_or("/net".into());
        File::open(format!("{net}/{}", file_of(&self.0))).map(Response).map_err(Error)
    }
}

pub struct Response(File);
impl Response {
    /// Ends with an error where the body ends before its announced length.
    pub fn into_reader(self) -> Box<dyn Read + Send + Sync + 'static> {
        let left = self.0.metadata().map(|m| m.len()).unwrap_or(0);
        Box::new(Body { file: self.0, left })
    }
}
struct Body {
    file: File,
    left: u64,
}
impl Read for Body {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.file.read(b)?;
        if n == 0 && !b.is_empty() && self.left > 0 {
            return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "response body closed before all bytes were read"));
        }
        self.left = self.left.saturating_sub(n as u64);
        Ok(n)
    }
}
