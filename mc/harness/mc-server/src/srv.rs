//! A running server above files in memory, and what a client hears of it.

use std::path::{Path, PathBuf};

use mccore::explore::{Chooser, Fail};
use mccore::rt::{self, End};
use sync_ls::LspClient;
use tinymist::actor::editor::EditorActor;
use tinymist::project::{EntryResolver, LspInterrupt};
use tinymist::{Config, ConstConfig, ServerEvent, ServerState};
use tinymist_project::MemDisk;
use tinymist_query::PositionEncoding;
use tokio::sync::mpsc;

type Event = Box<dyn std::any::Any + Send>;

pub struct Srv {
    pub state: ServerState,
    pub client: LspClient,
    events: mpsc::UnboundedReceiver<Event>,
}

pub fn config(position_encoding: PositionEncoding) -> Config {
    Config {
        const_config: ConstConfig { position_encoding, ..Default::default() },
        entry_resolver: EntryResolver { root_path: Some(Path::new("/w").into()), ..Default::default() },
        ..Default::default()
    }
}

impl Srv {
    pub fn new(cfg: Config) -> Self {
        let (client, events) = LspClient::recording();
        let (etx, erx) = mpsc::unbounded_channel();
        let mut state = ServerState::new(client.to_typed(), cfg, etx);
        let editor = EditorActor::new(client.clone(), erx, true);
        state.reload_projects().unwrap();
        client.handle.spawn(editor.run());
        Srv { state, client, events }
    }
    /// Handles the next of the server's own events.
    pub fn pump(&mut self) -> bool {
        let Ok(e) = self.events.try_recv() else { return false };
        match e.downcast::<LspInterrupt>() {
            Ok(i) => self.state.project.interrupt(*i),
            Err(e) => match *e.downcast::<ServerEvent>().ok().expect("an event of the server") {
                ServerEvent::UnpinPrimaryByPreview => self.state.set_pin_by_preview(false, false),
            },
        }
        true
    }
    /// Lets everything else run until it waits.
    pub fn others(&self) {
        rt::sleep("others", 1);
    }
    /// Until nothing is left to do.
    pub fn drain(&mut self) {
        let mut quiet = 0;
        for _ in 0..400 {
            if self.pump() {
                quiet = 0;
            } else if quiet < 3 {
                self.others();
                quiet += 1;
            } else {
                return;
            }
        }
        panic!("nothing ever settles");
    }
}

/// Runs `f` on a fresh server and everything it starts.
pub fn run(
    ch: &mut Chooser,
    cfg: Config,
    disk: Vec<(PathBuf, String)>,
    f: impl FnOnce(&mut Srv) -> Result<String, Fail> + Send + 'static,
) -> Result<(), Fail> {
    let res = rt::run(ch, rt::Opts::delays(), move || {
        mcstdt::reset_statics();
        typst::syntax::reset_file_ids();
        MemDisk::set(disk);
        let mut s = Srv::new(cfg);
        s.drain();
        f(&mut s)
    });
    match (res.end, res.value) {
        (_, Some(Err(f))) => Err(f),
        (End::Done { .. }, Some(Ok(seen))) if res.panics.is_empty() => {
            ch.observe(seen);
            Ok(())
        }
        (e, _) => Err(Fail::new("does-not-end-well", format!("{e:?} {:?}", res.panics))),
    }
}
