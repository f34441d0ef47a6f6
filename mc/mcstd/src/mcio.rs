//! Standard input and output that a model execution may replace.
use ::std::io::{self, BufRead, Read, Write};
use ::std::marker::PhantomData;
use mccore::rt;

/// Under this key, `Box<dyn BufRead + Send>`.
pub const STDIN: &str = "stdin";
/// Under this key, `Box<dyn Write + Send>`.
pub const STDOUT: &str = "stdout";

pub struct Stdin(());
pub struct Stdout(());
pub fn stdin() -> Stdin {
    Stdin(())
}
pub fn stdout() -> Stdout {
    Stdout(())
}

pub struct StdinLock<'a>(Box<dyn BufRead>, PhantomData<&'a ()>);
pub struct StdoutLock<'a>(Box<dyn Write>, PhantomData<&'a ()>);

impl Stdin {
    pub fn lock(&self) -> StdinLock<'static> {
        let b: Box<dyn BufRead> = match rt::take_local::<Box<dyn BufRead + Send>>(STDIN) {
            Some(b) => b,
            None if rt::active() => Box::new(io::empty()),
            None => Box::new(io::stdin().lock()),
        };
        StdinLock(b, PhantomData)
    }
}
impl Stdout {
    pub fn lock(&self) -> StdoutLock<'static> {
        let b: Box<dyn Write> = match rt::take_local::<Box<dyn Write + Send>>(STDOUT) {
            Some(b) => b,
            None if rt::active() => Box::new(io::sink()),
            None => Box::new(io::stdout().lock()),
        };
        StdoutLock(b, PhantomData)
    }
}
impl Read for StdinLock<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.0.read(b)
    }
}
impl BufRead for StdinLock<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.0.fill_buf()
    }
    fn consume(&mut self, n: usize) {
        self.0.consume(n)
    }
}
impl Write for StdoutLock<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.flush()
    }
}
