//! Minimal in-process loader for x86-64 ELF relocatable objects.
use object::read::{Object, ObjectSection, ObjectSymbol};
use object::{RelocationFlags, RelocationTarget, SectionKind, SymbolSection};
use std::collections::HashMap;

pub struct Image {
    base: *mut u8,
    size: usize,
    pub syms: HashMap<String, usize>,
}
impl Drop for Image {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.base.cast(), self.size) };
    }
}
impl Image {
    #[allow(dead_code)]
    pub fn exact(&self, name: &str) -> Option<usize> {
        self.syms.get(name).copied()
    }
    /// Address of the function compiled from IR function `name` (local symbols are mangled).
    pub fn func(&self, name: &str) -> Option<usize> {
        if let Some(a) = self.syms.get(name) {
            return Some(*a);
        }
        let p = format!("_trb_{name}_h");
        let mut hits = self.syms.iter().filter(|(k, _)| k.starts_with(&p) && k.len() == p.len() + 16);
        let r = hits.next().map(|x| *x.1);
        if hits.next().is_some() { None } else { r }
    }
}

pub fn load(bytes: &[u8], resolve: &dyn Fn(&str) -> Option<usize>) -> Result<Image, String> {
    let f = object::File::parse(bytes).map_err(|e| format!("object does not parse: {e}"))?;
    let mut off = 0usize;
    let mut place = HashMap::new();
    for s in f.sections() {
        match s.kind() {
            SectionKind::Text | SectionKind::Data | SectionKind::ReadOnlyData | SectionKind::UninitializedData | SectionKind::ReadOnlyDataWithRel | SectionKind::ReadOnlyString => {
                let al = (s.align() as usize).max(16);
                off = off.div_ceil(al) * al;
                place.insert(s.index(), off);
                off += s.size() as usize;
            }
            _ => {}
        }
    }
    off = off.div_ceil(16) * 16;
    // GOT and PLT: one 16-byte entry (address, jump) per symbol
    let nsym = f.symbols().count() + 1;
    let got = off;
    let plt = got + nsym * 8;
    let size = (plt + nsym * 16 + 4096) / 4096 * 4096;
    let base = unsafe { libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) } as *mut u8;
    if base as isize == -1 {
        return Err("mmap failed".into());
    }
    let mut img = Image { base, size, syms: HashMap::new() };
    let b0 = base as usize;
    for s in f.sections() {
        if let Some(o) = place.get(&s.index()) {
            let d = s.uncompressed_data().map_err(|e| e.to_string())?;
            unsafe { std::ptr::copy_nonoverlapping(d.as_ptr(), base.add(*o), d.len()) };
        }
    }
    let mut addr = HashMap::new();
    for s in f.symbols() {
        let a = match s.section() {
            SymbolSection::Section(i) => place.get(&i).map(|o| b0 + o + s.address() as usize),
            SymbolSection::Undefined => s.name().ok().filter(|n| !n.is_empty()).and_then(|n| resolve(n)),
            _ => None,
        };
        if let (Some(a), Ok(n)) = (a, s.name()) {
            if !n.is_empty() && !matches!(s.section(), SymbolSection::Undefined) {
                img.syms.insert(n.to_string(), a);
            }
        }
        if let Some(a) = a {
            addr.insert(s.index(), a);
        }
    }
    for s in f.sections() {
        let Some(o) = place.get(&s.index()) else { continue };
        for (ro, r) in s.relocations() {
            let p = b0 + o + ro as usize;
            let (sa, idx) = match r.target() {
                RelocationTarget::Symbol(i) => {
                    let n = f.symbol_by_index(i).ok().and_then(|s| s.name().ok().map(String::from)).unwrap_or_default();
                    (addr.get(&i).copied().ok_or_else(|| format!("unresolved symbol {n}"))?, i.0)
                }
                RelocationTarget::Section(i) => (b0 + place.get(&i).ok_or("relocation to unloaded section")?, nsym - 1),
                _ => return Err("odd relocation target".into()),
            };
            let ad = r.addend();
            let RelocationFlags::Elf { r_type } = r.flags() else { return Err("not ELF".into()) };
            const R64: u32 = 1;
            const PC32: u32 = 2;
            const PLT32: u32 = 4;
            const GOTPCREL: u32 = 9;
            const GOTPCRELX: u32 = 41;
            const REX_GOTPCRELX: u32 = 42;
            unsafe {
                match r_type {
                    R64 => (p as *mut u64).write_unaligned((sa as i64 + ad) as u64),
                    PC32 | PLT32 => {
                        let mut v = sa as i64 + ad - p as i64;
                        if i32::try_from(v).is_err() {
                            if r_type != PLT32 {
                                return Err("PC32 out of range".into());
                            }
                            let e = b0 + plt + idx * 16;
                            // mov rax?, no: jmp [rip+0]; addr
                            (e as *mut [u8; 6]).write([0xff, 0x25, 0, 0, 0, 0]);
                            ((e + 6) as *mut u64).write_unaligned(sa as u64);
                            v = e as i64 + ad - p as i64;
                        }
                        (p as *mut i32).write_unaligned(v as i32);
                    }
                    GOTPCREL | GOTPCRELX | REX_GOTPCRELX => {
                        let e = b0 + got + idx * 8;
                        (e as *mut u64).write(sa as u64);
                        (p as *mut i32).write_unaligned((e as i64 + ad - p as i64) as i32);
                    }
                    x => return Err(format!("relocation type {x}")),
                }
            }
        }
    }
    Ok(img)
}
