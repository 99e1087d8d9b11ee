//! Independent writer of version 9 (and 8) profile files.
#![allow(dead_code)]

pub const FIRST: u64 = 100_000_003;
pub const META: u64 = 100_000_001;
pub const INVALID: u64 = 100_000_002;
pub const IV: u64 = u64::MAX;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ev { pub kind: u64, pub id: u64, pub tid: u32, pub p1: u64, pub p2: u64 }
pub const INSTANT: u64 = (1 << 48) - 1;
pub const INTEGER: u64 = (1 << 48) - 2;

pub struct File { pub data: Vec<u8>, pub index: Vec<u8>, pub events: Vec<u8> }

pub fn header(magic: &[u8; 4], version: u32) -> Vec<u8> {
    let mut v = magic.to_vec();
    v.extend_from_slice(&version.to_le_bytes());
    v
}

impl File {
    pub fn new(start_time: u64, pid: u32, cmd: &str) -> File {
        let mut f = File { data: header(b"MMSD", 9), index: header(b"MMSI", 9), events: header(b"MMES", 9) };
        let m = format!("{{ \"start_time\": {}, \"process_id\": {}, \"cmd\": \"{}\" }}", start_time, pid, cmd);
        let id = f.string(&m);
        f.map(META, id - FIRST);
        f
    }
    pub fn string(&mut self, s: &str) -> u64 {
        let id = FIRST + self.data.len() as u64;
        self.data.extend_from_slice(s.as_bytes());
        self.data.push(0xFF);
        id
    }
    /// pieces: text or reference
    pub fn composite(&mut self, pieces: &[Result<&str, u64>]) -> u64 {
        let id = FIRST + self.data.len() as u64;
        for p in pieces {
            match p {
                Ok(s) => self.data.extend_from_slice(s.as_bytes()),
                Err(r) => { self.data.push(0xFE); self.data.extend_from_slice(&r.to_le_bytes()); }
            }
        }
        self.data.push(0xFF);
        id
    }
    pub fn map(&mut self, id: u64, addr: u64) {
        self.index.extend_from_slice(&id.to_le_bytes());
        self.index.extend_from_slice(&addr.to_le_bytes());
    }
    pub fn event(&mut self, e: Ev) {
        self.events.extend_from_slice(&e.kind.to_le_bytes());
        self.events.extend_from_slice(&e.id.to_le_bytes());
        self.events.extend_from_slice(&e.tid.to_le_bytes());
        self.events.extend_from_slice(&(e.p1 as u32).to_le_bytes());
        self.events.extend_from_slice(&(e.p2 as u32).to_le_bytes());
        self.events.extend_from_slice(&((((e.p1 >> 32) as u32) << 16) | (e.p2 >> 32) as u32).to_le_bytes());
    }
    /// one page per stream, or several of at most `page` bytes
    pub fn bytes(&self, page: usize) -> Vec<u8> {
        let mut v = header(b"MMPD", 9);
        for (tag, s) in [(0u8, &self.events), (1, &self.data), (2, &self.index)] {
            for c in s.chunks(page) {
                v.push(tag);
                v.extend_from_slice(&(c.len() as u32).to_le_bytes());
                v.extend_from_slice(c);
            }
        }
        v
    }
    pub fn decoder(&self) -> decodeme::EventDecoder {
        decodeme::EventDecoder::from_separate_buffers(self.data.clone(), self.index.clone(), self.events.clone(), None).unwrap()
    }
    pub fn profile(&self) -> analyzeme::ProfilingData {
        analyzeme::ProfilingData::from_paged_buffer(self.bytes(1 << 18), None).unwrap()
    }
}

/// Version 8 files: string ids and addresses are 32 bits wide.
pub struct File8 { pub data: Vec<u8>, pub index: Vec<u8>, pub events: Vec<u8> }
impl File8 {
    pub fn new(start_time: u64, pid: u32, cmd: &str) -> File8 {
        let mut f = File8 { data: header(b"MMSD", 8), index: header(b"MMSI", 8), events: header(b"MMES", 8) };
        let m = format!("{{ \"start_time\": {}, \"process_id\": {}, \"cmd\": \"{}\" }}", start_time, pid, cmd);
        let id = f.string(&m);
        f.map(META as u32, id - FIRST as u32);
        f
    }
    pub fn string(&mut self, s: &str) -> u32 {
        let id = FIRST as u32 + self.data.len() as u32;
        self.data.extend_from_slice(s.as_bytes());
        self.data.push(0xFF);
        id
    }
    pub fn map(&mut self, id: u32, addr: u32) {
        self.index.extend_from_slice(&id.to_le_bytes());
        self.index.extend_from_slice(&addr.to_le_bytes());
    }
    pub fn event(&mut self, e: Ev) {
        self.events.extend_from_slice(&(e.kind as u32).to_le_bytes());
        self.events.extend_from_slice(&(e.id as u32).to_le_bytes());
        self.events.extend_from_slice(&e.tid.to_le_bytes());
        self.events.extend_from_slice(&(e.p1 as u32).to_le_bytes());
        self.events.extend_from_slice(&(e.p2 as u32).to_le_bytes());
        self.events.extend_from_slice(&((((e.p1 >> 32) as u32) << 16) | (e.p2 >> 32) as u32).to_le_bytes());
    }
    pub fn bytes(&self, page: usize) -> Vec<u8> {
        let mut v = header(b"MMPD", 8);
        for (tag, s) in [(0u8, &self.events), (1, &self.data), (2, &self.index)] {
            for c in s.chunks(page) {
                v.push(tag);
                v.extend_from_slice(&(c.len() as u32).to_le_bytes());
                v.extend_from_slice(c);
            }
        }
        v
    }
}
