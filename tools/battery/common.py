import os, subprocess, threading
PID = 'common/src/payment_id.rs'
LOC = 'common/src/multilocation_asset_id.rs'
PC = ['C01', 'C02', 'C03', 'C04', 'C05', 'R10']
LC = ['C06', 'C07', 'C08', 'C09', 'C10', 'R24']
CASES = []
lock = threading.Lock()


def q(id, *edits, props=None):
    CASES.append({'id': 'q-' + id, 'edits': list(edits), 'expect': 'quiet', 'props': props or (PC if edits[0][0] == PID else LC)})


def b(id, fires, *edits):
    CASES.append({'id': 'b-' + id, 'edits': list(edits), 'expect': 'caught', 'fires': fires, 'props': fires})


def compile(d, case):
    """type-check the edited library with stub dependencies"""
    import importlib.util
    spec = importlib.util.spec_from_file_location('s', os.path.join(os.path.dirname(__file__), '..', 'seeds', 'common.py'))
    s = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(s)
    w = '/tmp/battery-build'
    with lock:
        for name, text in s.STUBS.items():
            p = os.path.join(w, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if not os.path.exists(p):
                open(p, 'w').write(text)
        os.makedirs(w + '/lib', exist_ok=True)
        toml = s.demo(True).split('cat > "$tmp/lib/Cargo.toml" <<EOT\n')[1].split('\nEOT')[0]
        open(w + '/lib/Cargo.toml', 'w').write(toml.replace('$repo', d).replace('$tmp', w) + '\n[workspace]\n')
        env = dict(os.environ, RUSTUP_TOOLCHAIN='nightly', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=w + '/target', PATH='/root/.cargo/bin:' + os.environ['PATH'])
        for feats in ('std', 'std,nightly', 'std,alloc,nightly,runtime'):
            r = subprocess.run(['cargo', 'check', '-q', '--offline', '--features', feats], cwd=w + '/lib', env=env, capture_output=True, text=True)
            if r.returncode:
                return feats + '\n' + '\n'.join(l for l in r.stderr.splitlines() if 'warning' not in l)[-700:]
    return ''


FROM_U64 = '''		let val = value.to_le_bytes();
		let index = u16::from_le_bytes(val[2..4].try_into().unwrap());
		let block = u32::from_le_bytes(val[4..].try_into().unwrap());
		PaymentId {
			prefix: [val[0], val[1]],
			block,
			index,
		}
'''
TO_U64 = '		u64::from_le_bytes(id.as_ref().try_into().expect("fits in u64"))\n'
TUPLE = '''		debug_assert!(extra.len() >= 2);
		PaymentId {
			prefix: extra[..2].try_into().expect("at least 2 bytes"),
			block,
			index: idx as u16,
		}
'''
ASREF = '''		debug_assert_eq!(8, core::mem::size_of::<Self>());
		unsafe { core::slice::from_raw_parts((self as *const PaymentId) as *const u8, core::mem::size_of::<Self>()) }
'''
PARSE = '''		let mut tmp = [0u8; 12];
		let mut input = s;
		if let Some((p1, p2)) = s.split_once('-') {
			let len_without_sep = p1.len() + p2.len();
			if len_without_sep > tmp.len() {
				return Err(());
			}
			tmp[..p1.len()].copy_from_slice(p1.as_bytes());
			tmp[p1.len()..len_without_sep].copy_from_slice(p2.as_bytes());
			input = tmp[..len_without_sep].as_ascii().ok_or(())?.as_str();
		};
'''
DECODE = '''		let mut out = [0u8; 8];
		let len = bs58::decode(input).onto(&mut out[..]).map_err(|_| ())?;
		if len != out.len() {
			return Err(());
		}
		Ok(u64::from_le_bytes(out).into())
'''
FMT = '''		use core::fmt::Error;
		let mut out = [0u8; 12];
		let n = bs58::encode(self).onto(&mut out[..]).map_err(|_| Error)?;
		let out = out[..n].as_ascii().ok_or(Error)?.as_str();
		write!(f, "{}", &out[..5])?;
		if f.alternate() {
			write!(f, "-")?;
		}
		write!(f, "{}", &out[5..])
'''
ENC = '''		if pretty {
			alloc::format!("{self:#}")
		} else {
			alloc::format!("{self}")
		}
'''
# ---- numbers
q('from-shifts', (PID, FROM_U64, '\t\tPaymentId { prefix: [value as u8, (value >> 8) as u8], index: (value >> 16) as u16, block: (value >> 32) as u32 }\n'))
q('from-mask', (PID, FROM_U64, '\t\tlet block = (value >> 32) as u32;\n\t\tlet index = ((value >> 16) & 0xFFFF) as u16;\n\t\tlet prefix = ((value & 0xFFFF) as u16).to_le_bytes();\n\t\tSelf { prefix, index, block }\n'))
q('from-pattern', (PID, FROM_U64, '\t\tlet [p0, p1, i0, i1, b0, b1, b2, b3] = value.to_le_bytes();\n\t\tPaymentId { prefix: [p0, p1], index: u16::from_le_bytes([i0, i1]), block: u32::from_le_bytes([b0, b1, b2, b3]) }\n'))
q('from-helper', (PID, FROM_U64, '\t\tlet (low, block) = halves(value);\n\t\tlet [a, b, c, d] = low.to_le_bytes();\n\t\tPaymentId { prefix: [a, b], index: u16::from_le_bytes([c, d]), block }\n'),
  (PID, 'impl From<u64> for PaymentId {', 'fn halves(n: u64) -> (u32, u32) {\n\t((n & u32::MAX as u64) as u32, (n >> 32) as u32)\n}\n\nimpl From<u64> for PaymentId {'))
q('from-be', (PID, FROM_U64, '\t\tlet v = value.to_be_bytes();\n\t\tPaymentId { prefix: [v[7], v[6]], index: u16::from_be_bytes([v[4], v[5]]), block: u32::from_be_bytes([v[0], v[1], v[2], v[3]]) }\n'))
q('from-mut', (PID, FROM_U64, '\t\tlet val = value.to_le_bytes();\n\t\tlet mut id = PaymentId::default();\n\t\tid.prefix.copy_from_slice(&val[..2]);\n\t\tid.index = u16::from_le_bytes([val[2], val[3]]);\n\t\tid.block = (value >> 32) as u32;\n\t\tid\n'))
q('to-shifts', (PID, TO_U64, '\t\tu16::from_le_bytes(id.prefix) as u64 | (id.index as u64) << 16 | (id.block as u64) << 32\n'))
q('to-add', (PID, TO_U64, '\t\tlet p = u64::from(u16::from_le_bytes(id.prefix));\n\t\tp + (u64::from(id.index) << 16) + (u64::from(id.block) << 32)\n'))
q('to-mul', (PID, TO_U64, '\t\tlet p = u64::from(id.prefix[0]) + 256 * u64::from(id.prefix[1]);\n\t\tp + u64::from(id.index) * 65536 + u64::from(id.block) * (1 << 32)\n'))
q('to-fold', (PID, TO_U64, '\t\tid.as_ref().iter().rev().fold(0u64, |acc, b| (acc << 8) | *b as u64)\n'))
q('to-for', (PID, TO_U64, '\t\tlet mut n = 0u64;\n\t\tfor (i, b) in id.as_ref().iter().enumerate() {\n\t\t\tn |= (*b as u64) << (8 * i);\n\t\t}\n\t\tn\n'))
q('to-while', (PID, TO_U64, '\t\tlet bytes = id.as_ref();\n\t\tlet mut n = 0u64;\n\t\tlet mut i = 8;\n\t\twhile i > 0 {\n\t\t\ti -= 1;\n\t\t\tn = n << 8 | u64::from(bytes[i]);\n\t\t}\n\t\tn\n'))
q('to-buf', (PID, TO_U64, '\t\tlet mut b = [0u8; 8];\n\t\tb[..2].copy_from_slice(&id.prefix);\n\t\tb[2..4].copy_from_slice(&id.index.to_le_bytes());\n\t\tb[4..].copy_from_slice(&id.block.to_le_bytes());\n\t\tu64::from_le_bytes(b)\n'))
q('to-copy', (PID, TO_U64, '\t\tlet mut b = [0u8; 8];\n\t\tb.copy_from_slice(id.as_ref());\n\t\tu64::from_le_bytes(b)\n'))
q('asref-transmute', (PID, ASREF, '\t\tlet p: *const PaymentId = self;\n\t\tunsafe { &*(p as *const [u8; 8]) }\n'))
q('asref-let', (PID, ASREF, '\t\tlet size = core::mem::size_of::<PaymentId>();\n\t\tlet ptr = self as *const Self as *const u8;\n\t\tunsafe { core::slice::from_raw_parts(ptr, size) }\n'))
q('asref-val', (PID, ASREF, '\t\tunsafe { core::slice::from_raw_parts(self as *const PaymentId as *const u8, core::mem::size_of_val(self)) }\n'))
q('asref-cast', (PID, ASREF, '\t\tunsafe { core::slice::from_raw_parts(core::ptr::from_ref(self).cast::<u8>(), 8) }\n'))
q('asref-transmute2', (PID, ASREF, '\t\tunsafe { core::mem::transmute::<&PaymentId, &[u8; 8]>(self) }\n'))
q('newtype', (PID, '\tprefix: [u8; 2],\n\tindex: u16,\n\tblock: u32,\n', '\tprefix: [u8; 2],\n\tindex: [u8; 2],\n\tblock: u32,\n'),
  (PID, 'self.index as u32', 'u16::from_le_bytes(self.index) as u32'),
  (PID, 'let index = u16::from_le_bytes(val[2..4].try_into().unwrap());', 'let index = val[2..4].try_into().unwrap();'),
  (PID, 'index: idx as u16,', 'index: (idx as u16).to_le_bytes(),'))
q('to-number', (PID, '\t\t(*self).into()\n', '\t\tu64::from(*self)\n'))
q('to-number-copy', (PID, '\t\t(*self).into()\n', '\t\tlet id = *self;\n\t\tid.into()\n'))
q('from-number', (PID, '\t\tn.into()\n', '\t\tPaymentId::from(n)\n'))
q('to-bytes', (PID, 'self.as_ref().into()\n', 'self.as_ref().to_vec()\n'))
q('to-bytes2', (PID, 'self.as_ref().into()\n', 'alloc::vec::Vec::from(self.to_number().to_le_bytes())\n'))
q('to-bytes3', (PID, 'self.as_ref().into()\n', 'let mut v = alloc::vec::Vec::with_capacity(8);\n\t\tv.extend_from_slice(self.as_ref());\n\t\tv\n'))
q('to-bytes4', (PID, 'self.as_ref().into()\n', 'self.as_ref().iter().copied().collect()\n'))
# ---- issuing
q('tuple-arr', (PID, TUPLE, '\t\tPaymentId { prefix: [extra[0], extra[1]], block, index: idx as u16 }\n'))
q('tuple-pat', (PID, TUPLE, '\t\tlet [a, b, ..] = *extra else { panic!("at least 2 bytes") };\n\t\tPaymentId { prefix: [a, b], block, index: (idx & 0xFFFF) as u16 }\n'))
q('tuple-match', (PID, TUPLE, '\t\tmatch extra {\n\t\t\t[a, b, ..] => PaymentId { prefix: [*a, *b], block, index: idx as u16 },\n\t\t\t_ => panic!("at least 2 bytes"),\n\t\t}\n'))
q('tuple-copy', (PID, TUPLE, '\t\tlet mut prefix = [0; 2];\n\t\tprefix.copy_from_slice(&extra[..2]);\n\t\tlet index = (idx % 65536) as u16;\n\t\tSelf { prefix, index, block }\n'))
q('tuple-zip', (PID, TUPLE, '\t\tassert!(extra.len() > 1);\n\t\tlet mut prefix = [0u8; 2];\n\t\tfor (d, s) in prefix.iter_mut().zip(extra.iter()) {\n\t\t\t*d = *s;\n\t\t}\n\t\tSelf { prefix, index: idx as u16, block }\n'))
q('tuple-sat', (PID, 'index: idx as u16,', 'index: u16::try_from(idx).unwrap_or(u16::MAX),'))
q('tuple-first', (PID, TUPLE, '\t\tlet prefix = *extra.first_chunk::<2>().expect("at least 2 bytes");\n\t\tSelf { prefix, index: idx as u16, block }\n'))
q('tuple-get', (PID, TUPLE, '\t\tlet prefix = [*extra.get(0).expect("two"), *extra.get(1).expect("two")];\n\t\tSelf { prefix, index: idx as u16, block }\n'))
q('tuple-num', (PID, TUPLE, '\t\tlet n = u64::from(extra[0]) | u64::from(extra[1]) << 8 | u64::from(idx as u16) << 16 | u64::from(block) << 32;\n\t\tn.into()\n'))
q('eq-number', (PID, 'Eq, Copy, PartialEq)]', 'Eq, Copy)]'), (PID, 'impl From<u64> for PaymentId {', 'impl PartialEq for PaymentId {\n\tfn eq(&self, other: &Self) -> bool {\n\t\tself.to_number() == other.to_number()\n\t}\n}\n\nimpl From<u64> for PaymentId {'))
q('eq-fields', (PID, 'Eq, Copy, PartialEq)]', 'Eq, Copy)]'), (PID, 'impl From<u64> for PaymentId {', 'impl PartialEq for PaymentId {\n\tfn eq(&self, other: &Self) -> bool {\n\t\tself.block == other.block && self.index == other.index && self.prefix == other.prefix\n\t}\n}\n\nimpl From<u64> for PaymentId {'))
q('eq-bytes', (PID, 'Eq, Copy, PartialEq)]', 'Eq, Copy)]'), (PID, 'impl From<u64> for PaymentId {', 'impl PartialEq for PaymentId {\n\tfn eq(&self, other: &Self) -> bool {\n\t\tself.as_ref() == other.as_ref()\n\t}\n}\n\nimpl From<u64> for PaymentId {'))
q('index-from', (PID, 'self.index as u32', 'u32::from(self.index)'))
q('index-into', (PID, 'self.index as u32', 'self.index.into()'))
# ---- parsing
q('parse-match', (PID, PARSE, '''		let mut tmp = [0u8; 12];
		let input = match s.split_once('-') {
			Some((p1, p2)) => {
				let (a, b) = (p1.len(), p1.len() + p2.len());
				if b > 12 {
					return Err(());
				}
				tmp[..a].copy_from_slice(p1.as_bytes());
				tmp[a..b].copy_from_slice(p2.as_bytes());
				core::str::from_utf8(&tmp[..b]).map_err(|_| ())?
			}
			None => s,
		};
'''))
q('parse-find', (PID, PARSE, '''		let mut tmp = [0u8; 12];
		let mut input = s.as_bytes();
		if let Some(i) = s.find('-') {
			let n = s.len() - 1;
			if n > 12 {
				return Err(());
			}
			tmp[..i].copy_from_slice(&s.as_bytes()[..i]);
			tmp[i..n].copy_from_slice(&s.as_bytes()[i + 1..]);
			input = &tmp[..n];
		}
'''))
q('parse-position', (PID, PARSE, '''		let mut tmp = [0u8; 12];
		let bytes = s.as_bytes();
		let input = match bytes.iter().position(|b| *b == b'-') {
			Some(i) => {
				let n = bytes.len() - 1;
				if n > tmp.len() {
					return Err(());
				}
				tmp[..i].copy_from_slice(&bytes[..i]);
				tmp[i..n].copy_from_slice(&bytes[i + 1..]);
				&tmp[..n]
			}
			None => bytes,
		};
'''))
q('parse-get', (PID, PARSE, '''		let mut tmp = [0u8; 12];
		let mut input = s.as_bytes();
		if let Some((p1, p2)) = s.split_once('-') {
			let len = p1.len() + p2.len();
			let buf = tmp.get_mut(..len).ok_or(())?;
			let (head, tail) = buf.split_at_mut(p1.len());
			head.copy_from_slice(p1.as_bytes());
			tail.copy_from_slice(p2.as_bytes());
			input = buf;
		}
'''))
q('parse-helper', (PID, PARSE, '''		let mut tmp = [0u8; 12];
		let input = without_dash(s, &mut tmp)?;
'''), (PID, '#[cfg(feature = "nightly")]\nimpl core::str::FromStr', '''#[cfg(feature = "nightly")]
fn without_dash<'a>(s: &'a str, tmp: &'a mut [u8; 12]) -> Result<&'a [u8], ()> {
	let Some((p1, p2)) = s.split_once('-') else { return Ok(s.as_bytes()) };
	let len = p1.len() + p2.len();
	if len > tmp.len() {
		return Err(());
	}
	tmp[..p1.len()].copy_from_slice(p1.as_bytes());
	tmp[p1.len()..len].copy_from_slice(p2.as_bytes());
	Ok(&tmp[..len])
}

#[cfg(feature = "nightly")]
impl core::str::FromStr'''))
q('parse-early', (PID, '\t\tlet mut input = s;\n', '\t\tif s.len() > 13 {\n\t\t\treturn Err(());\n\t\t}\n\t\tlet mut input = s;\n'))
q('parse-empty', (PID, '\t\tlet mut input = s;\n', '\t\tif s.is_empty() {\n\t\t\treturn Err(());\n\t\t}\n\t\tlet mut input = s;\n'))
q('parse-loop', (PID, PARSE, '''		let mut tmp = [0u8; 12];
		let mut n = 0;
		let mut dashed = false;
		for b in s.bytes() {
			if b == b'-' && !dashed {
				dashed = true;
				continue;
			}
			if n == tmp.len() {
				return Err(());
			}
			tmp[n] = b;
			n += 1;
		}
		let input = &tmp[..n];
'''))
q('decode-array', (PID, DECODE, '\t\tlet mut out = [0u8; 8];\n\t\tmatch bs58::decode(input).onto(&mut out) {\n\t\t\tOk(8) => Ok(u64::from_le_bytes(out).into()),\n\t\t\t_ => Err(()),\n\t\t}\n'))
q('decode-bool', (PID, DECODE, '\t\tlet mut out = [0u8; 8];\n\t\tlet full = bs58::decode(input).onto(&mut out).map_or(false, |n| n == 8);\n\t\tif full {\n\t\t\tOk(PaymentId::from(u64::from_le_bytes(out)))\n\t\t} else {\n\t\t\tErr(())\n\t\t}\n'))
q('decode-filter', (PID, DECODE, '\t\tlet mut out = [0u8; 8];\n\t\tbs58::decode(input)\n\t\t\t.onto(&mut out[..])\n\t\t\t.ok()\n\t\t\t.filter(|n| *n == 8)\n\t\t\t.map(|_| PaymentId::from_number(u64::from_le_bytes(out)))\n\t\t\t.ok_or(())\n'))
q('decode-big', (PID, DECODE, '\t\tlet mut out = [0u8; 12];\n\t\tlet n = bs58::decode(input).onto(&mut out[..]).map_err(|_| ())?;\n\t\tif n != 8 {\n\t\t\treturn Err(());\n\t\t}\n\t\tlet out: [u8; 8] = out[..8].try_into().map_err(|_| ())?;\n\t\tOk(u64::from_le_bytes(out).into())\n'))
q('decode-try', (PID, DECODE, '\t\tlet mut out = [0u8; 12];\n\t\tlet n = bs58::decode(input).onto(&mut out[..]).map_err(|_| ())?;\n\t\tlet out: [u8; 8] = out[..n].try_into().map_err(|_| ())?;\n\t\tOk(u64::from_le_bytes(out).into())\n'))
q('new-match', (PID, 'id.parse().unwrap_or(Default::default())', 'match id.parse() {\n\t\t\tOk(id) => id,\n\t\t\tErr(_) => PaymentId::default(),\n\t\t}'))
q('new-default', (PID, 'id.parse().unwrap_or(Default::default())', 'id.parse::<PaymentId>().unwrap_or_default()'))
q('new-iflet', (PID, 'id.parse().unwrap_or(Default::default())', 'if let Ok(parsed) = <PaymentId as core::str::FromStr>::from_str(id) {\n\t\t\tparsed\n\t\t} else {\n\t\t\tSelf::default()\n\t\t}'))
q('new-orelse', (PID, 'id.parse().unwrap_or(Default::default())', 'id.parse().unwrap_or_else(|_| Self::from_number(0))'))
# ---- printing
q('fmt-split', (PID, FMT, '''		use core::fmt::Error;
		let mut out = [0u8; 12];
		let n = bs58::encode(self).onto(&mut out[..]).map_err(|_| Error)?;
		let text = core::str::from_utf8(&out[..n]).map_err(|_| Error)?;
		let (head, tail) = text.split_at(5);
		f.write_str(head)?;
		if f.alternate() {
			f.write_str("-")?;
		}
		f.write_str(tail)
'''))
q('fmt-sep', (PID, FMT, '''		use core::fmt::Error;
		let mut out = [0u8; 12];
		let n = bs58::encode(self).onto(&mut out[..]).map_err(|_| Error)?;
		let out = out[..n].as_ascii().ok_or(Error)?.as_str();
		let sep = if f.alternate() { "-" } else { "" };
		write!(f, "{}{}{}", &out[..5], sep, &out[5..])
'''))
q('fmt-else', (PID, FMT, '''		use core::fmt::Error;
		let mut out = [0u8; 12];
		let n = bs58::encode(self.to_number().to_le_bytes()).onto(&mut out[..]).map_err(|_| Error)?;
		let out = out[..n].as_ascii().ok_or(Error)?.as_str();
		if !f.alternate() {
			return f.write_str(out);
		}
		write!(f, "{}-{}", &out[..5], &out[5..])
'''))
q('fmt-char', (PID, FMT, '''		use core::fmt::{Error, Write};
		let mut out = [0u8; 11];
		let n = bs58::encode(self).onto(&mut out[..]).map_err(|_| Error)?;
		let out = unsafe { core::str::from_utf8_unchecked(&out[..n]) };
		f.write_str(&out[..5])?;
		if f.alternate() {
			f.write_char('-')?;
		}
		f.write_str(&out[5..])?;
		Ok(())
'''))
q('fmt-loop', (PID, FMT, '''		use core::fmt::{Error, Write};
		let mut out = [0u8; 12];
		let n = bs58::encode(self).onto(&mut out[..]).map_err(|_| Error)?;
		for (i, c) in out[..n].iter().enumerate() {
			if i == 5 && f.alternate() {
				f.write_char('-')?;
			}
			f.write_char(*c as char)?;
		}
		Ok(())
'''))
q('enc-match', (PID, ENC, '\t\tmatch pretty {\n\t\t\ttrue => alloc::format!("{:#}", self),\n\t\t\tfalse => alloc::format!("{}", self),\n\t\t}\n'))
q('enc-tostring', (PID, ENC, '\t\tuse alloc::string::ToString;\n\t\tif !pretty {\n\t\t\treturn self.to_string();\n\t\t}\n\t\talloc::format!("{self:#}")\n'))
q('enc-write', (PID, ENC, '\t\tuse core::fmt::Write;\n\t\tlet mut s = alloc::string::String::new();\n\t\tlet r = if pretty { write!(s, "{self:#}") } else { write!(s, "{self}") };\n\t\tr.expect("writing to a string");\n\t\ts\n'))
q('enc-insert', (PID, ENC, '\t\tlet mut s = alloc::format!("{self}");\n\t\tif pretty {\n\t\t\ts.insert(5, \'-\');\n\t\t}\n\t\ts\n'))
# ---- codec
q('cod-asref', (PID, 'let buf = self.to_number().to_le_bytes();\n\t\t\tf(&buf[..])', 'f(self.as_ref())'))
q('cod-u64', (PID, 'let buf = self.to_number().to_le_bytes();\n\t\t\tf(&buf[..])', 'self.to_number().using_encoded(f)'))
q('cod-encodeto', (PID, '\t\tfn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {\n\t\t\tlet buf = self.to_number().to_le_bytes();\n\t\t\tf(&buf[..])\n\t\t}', '\t\tfn encode_to<T: parity_scale_codec::Output + ?Sized>(&self, dest: &mut T) {\n\t\t\tdest.write(&self.to_number().to_le_bytes())\n\t\t}'))
q('cod-encodeto2', (PID, '\t\tfn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {\n\t\t\tlet buf = self.to_number().to_le_bytes();\n\t\t\tf(&buf[..])\n\t\t}', '\t\tfn encode_to<T: parity_scale_codec::Output + ?Sized>(&self, dest: &mut T) {\n\t\t\tself.to_number().encode_to(dest)\n\t\t}'))
q('cod-encodeto3', (PID, '\t\tfn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {\n\t\t\tlet buf = self.to_number().to_le_bytes();\n\t\t\tf(&buf[..])\n\t\t}', '\t\tfn encode_to<T: parity_scale_codec::Output + ?Sized>(&self, dest: &mut T) {\n\t\t\tfor b in self.as_ref() {\n\t\t\t\tdest.push_byte(*b);\n\t\t\t}\n\t\t}'))
q('cod-encode', (PID, '\t\tfn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {\n\t\t\tlet buf = self.to_number().to_le_bytes();\n\t\t\tf(&buf[..])\n\t\t}', '\t\tfn encode(&self) -> alloc::vec::Vec<u8> {\n\t\t\tself.to_bytes()\n\t\t}'))
DEC = '\t\t\tlet mut buf = [0u8; mem::size_of::<u64>()];\n\t\t\tinput.read(&mut buf)?;\n\t\t\tOk(<u64>::from_le_bytes(buf).into())\n'
q('dec-u64', (PID, DEC, '\t\t\tu64::decode(input).map(PaymentId::from)\n'))
q('dec-u64b', (PID, DEC, '\t\t\tOk(u64::decode(input)?.into())\n'))
q('dec-arr', (PID, DEC, '\t\t\tlet bytes = <[u8; 8]>::decode(input)?;\n\t\t\tOk(u64::from_le_bytes(bytes).into())\n'))
q('dec-loop', (PID, DEC, '\t\t\tlet mut buf = [0u8; 8];\n\t\t\tfor b in buf.iter_mut() {\n\t\t\t\t*b = input.read_byte()?;\n\t\t\t}\n\t\t\tOk(u64::from_le_bytes(buf).into())\n'))
q('dec-fields', (PID, DEC, '\t\t\tlet prefix = <[u8; 2]>::decode(input)?;\n\t\t\tlet index = u16::decode(input)?;\n\t\t\tlet block = u32::decode(input)?;\n\t\t\tOk(PaymentId { prefix, index, block })\n'))
q('dec-match', (PID, DEC, '\t\t\tlet mut buf = [0u8; 8];\n\t\t\tmatch input.read(&mut buf) {\n\t\t\t\tOk(()) => Ok(PaymentId::from_number(u64::from_le_bytes(buf))),\n\t\t\t\tErr(e) => Err(e),\n\t\t\t}\n'))
q('dec-twice', (PID, DEC, '\t\t\tlet mut buf = [0u8; 8];\n\t\t\tinput.read(&mut buf[..4])?;\n\t\t\tinput.read(&mut buf[4..])?;\n\t\t\tOk(u64::from_le_bytes(buf).into())\n'))
q('len-const', (PID, '\t\tfn max_encoded_len() -> usize {\n\t\t\tmem::size_of::<u64>()', '\t\tfn max_encoded_len() -> usize {\n\t\t\tu64::max_encoded_len()'))
q('len-self', (PID, '\t\tfn max_encoded_len() -> usize {\n\t\t\tmem::size_of::<u64>()', '\t\tfn max_encoded_len() -> usize {\n\t\t\tmem::size_of::<PaymentId>()'))
q('len-konst', (PID, '\t\tfn max_encoded_len() -> usize {\n\t\t\tmem::size_of::<u64>()', '\t\tfn max_encoded_len() -> usize {\n\t\t\tSIZE'), (PID, '\timpl EncodeLike for PaymentId {}\n', '\tconst SIZE: usize = (u64::BITS / 8) as usize;\n\timpl EncodeLike for PaymentId {}\n'))
q('hint', (PID, '\t\tfn size_hint(&self) -> usize {\n\t\t\tmem::size_of::<u64>()', '\t\tfn size_hint(&self) -> usize {\n\t\t\tself.to_number().size_hint()'))
q('hint2', (PID, '\t\tfn size_hint(&self) -> usize {\n\t\t\tmem::size_of::<u64>()', '\t\tfn size_hint(&self) -> usize {\n\t\t\tself.as_ref().len()'))
q('fixed', (PID, 'Some(mem::size_of::<u64>())', 'u64::encoded_fixed_size()'))
q('fixed2', (PID, 'Some(mem::size_of::<u64>())', 'Some(Self::max_encoded_len())'))
q('tinfo', (PID, 'TypeDefPrimitive::U64.into()', 'u64::type_info()'), (PID, '{TypeDefPrimitive, TypeInfo}', 'TypeInfo'))
q('tinfo2', (PID, 'TypeDefPrimitive::U64.into()', '<u64 as TypeInfo>::type_info()'), (PID, '{TypeDefPrimitive, TypeInfo}', 'TypeInfo'))
q('tinfo3', (PID, 'TypeDefPrimitive::U64.into()', 'scale_info::Type::from(TypeDefPrimitive::U64)'))
q('comment', (PID, '$END', '\n// trailing remark\n'))
q('noop', (PID, '\t\tlet mut input = s;\n', '\t\tlet _ = ();\n\t\tlet mut input = s;\n'), (PID, FROM_U64, '\t\t();\n' + FROM_U64))
# ---- breaking edits
b('b-from-order', ['C01'], (PID, 'prefix: [val[0], val[1]],', 'prefix: [val[1], val[0]],'))
b('b-from-be', ['C01'], (PID, 'let index = u16::from_le_bytes(val[2..4].try_into().unwrap());', 'let index = u16::from_be_bytes(val[2..4].try_into().unwrap());'))
b('b-from-mask', ['C01'], (PID, 'let block = u32::from_le_bytes(val[4..].try_into().unwrap());', 'let block = u32::from_le_bytes(val[4..].try_into().unwrap()) & 0x7fff_ffff;'))
b('b-repr', ['C01'], (PID, '\tprefix: [u8; 2],\n\tindex: u16,\n\tblock: u32,\n', '\tindex: u16,\n\tprefix: [u8; 2],\n\tblock: u32,\n'))
b('b-repr2', ['C01'], (PID, '#[repr(C)]\n', ''))
b('b-fromnum', ['C01'], (PID, '\t\tn.into()\n', '\t\t((n << 1) >> 1).into()\n'))
b('b-tonum', ['C01'], (PID, '\t\t(*self).into()\n', '\t\tu64::from(*self).to_be()\n'))
b('b-tonum2', ['C01'], (PID, '\t\t(*self).into()\n', '\t\tu64::from(*self) & !(1 << 63)\n'))
b('b-bytes', ['C01'], (PID, 'self.as_ref().into()\n', 'self.to_number().to_be_bytes().to_vec()\n'))
b('b-cond', ['C01'], (PID, TO_U64, '\t\tlet n = u64::from_le_bytes(id.as_ref().try_into().expect("fits in u64"));\n\t\tif id.block == 0 && id.prefix[0] == 7 { n ^ 1 } else { n }\n'))
b('b-idx8', ['C02'], (PID, 'index: idx as u16,', 'index: idx as u8 as u16,'))
b('b-idx15', ['C02'], (PID, 'index: idx as u16,', 'index: (idx % 32768) as u16,'))
b('b-idxsat', ['C02'], (PID, 'index: idx as u16,', 'index: idx.min(65534) as u16,'))
b('b-prefix', ['C02'], (PID, 'prefix: extra[..2].try_into().expect("at least 2 bytes"),', 'prefix: extra[extra.len() - 2..].try_into().expect("at least 2 bytes"),'))
b('b-prefix2', ['C02'], (PID, 'prefix: extra[..2].try_into().expect("at least 2 bytes"),', 'prefix: [extra[0] ^ extra[1], extra[1] & 0xF0],'))
b('b-extra3', ['C02'], (PID, 'debug_assert!(extra.len() >= 2);', 'debug_assert!(extra.len() > 2);'))
b('b-blocknum', ['C02'], (PID, '\t\tself.block\n', '\t\tself.block & 0x7FFF_FFFF\n'))
b('b-eq', ['C02'], (PID, 'Eq, Copy, PartialEq)]', 'Eq, Copy)]'), (PID, 'impl From<u64> for PaymentId {', 'impl PartialEq for PaymentId {\n\tfn eq(&self, other: &Self) -> bool {\n\t\tself.block == other.block && self.index == other.index\n\t}\n}\n\nimpl From<u64> for PaymentId {'))
b('b-dash4', ['C03'], (PID, 'write!(f, "{}", &out[..5])?;', 'write!(f, "{}", &out[..4])?;'), (PID, 'write!(f, "{}", &out[5..])', 'write!(f, "{}", &out[4..])'))
b('b-alt', ['C03'], (PID, '\t\tif f.alternate() {\n', '\t\tif f.alternate() && self.block > 0 {\n'))
b('b-enc', ['C03'], (PID, 'alloc::format!("{self:#}")', 'alloc::format!("{self}").replacen("b", "-", 1)'))
b('b-enc2', ['C03'], (PID, '\t\tif pretty {\n\t\t\talloc', '\t\tif pretty && self.index != 0 {\n\t\t\talloc'))
b('b-buf', ['C03'], (PID, '\t\tuse core::fmt::Error;\n\t\tlet mut out = [0u8; 12];', '\t\tuse core::fmt::Error;\n\t\tlet mut out = [0u8; 10];'))
b('b-len11', ['C04'], (PID, DECODE, DECODE.replace('if len != out.len()', 'if len < 7')))
b('b-nolen', ['C04'], (PID, DECODE, DECODE.replace('\t\tif len != out.len() {\n\t\t\treturn Err(());\n\t\t}\n', '\t\tlet _ = len;\n')))
b('b-rest', ['C04'], (PID, DECODE, DECODE.replace('bs58::decode(input)', 'bs58::decode(&input[..input.len().min(11)])')))
b('b-lower', ['C04'], (PID, "s.split_once('-')", "s.split_once(|c| c == '-' || c == '_')"))
b('b-panic13', ['C04'], (PID, 'if len_without_sep > tmp.len() {', 'if len_without_sep > tmp.len() + 1 {'))
b('b-unwrap', ['C04'], (PID, '.as_ascii().ok_or(())?.as_str()', '.as_ascii().unwrap().as_str()'))
b('b-expect', ['C04'], (PID, 'bs58::decode(input).onto(&mut out[..]).map_err(|_| ())?', 'bs58::decode(input).onto(&mut out[..]).unwrap_or(8)'))
b('b-newdef', ['C04'], (PID, 'id.parse().unwrap_or(Default::default())', 'id.parse().unwrap_or(PaymentId::from_number(1))'))
b('b-newdef2', ['C04'], (PID, 'id.parse().unwrap_or(Default::default())', 'id.parse().expect("a payment id")'))
b('b-slice', ['C04'], (PID, '\t\tlet mut input = s;\n', '\t\tlet mut input = s;\n\t\tif &s[..1] == "#" {\n\t\t\treturn Err(());\n\t\t}\n'))
b('b-prefix-strip', ['C04'], (PID, '\t\tlet mut input = s;\n', '\t\tlet s = s.strip_prefix("0x").unwrap_or(s);\n\t\tlet mut input = s;\n'))
b('b-dash2', ['C04'], (PID, PARSE, PARSE.replace('tmp[..len_without_sep].as_ascii()', "tmp[..len_without_sep].as_ascii()").replace("s.split_once('-')", "s.trim_start_matches('-').split_once('-')")))
b('b-cod-be', ['C05'], (PID, 'self.to_number().to_le_bytes()', 'self.to_number().to_be_bytes()'))
b('b-cod-short', ['C05'], (PID, 'f(&buf[..])', 'f(&buf[..7])'))
b('b-dec-skip', ['C05'], (PID, 'input.read(&mut buf)?;', 'let _ = input.read(&mut buf);'))
b('b-dec-be', ['C05'], (PID, '<u64>::from_le_bytes(buf)', '<u64>::from_be_bytes(buf)'))
b('b-dec-more', ['C05'], (PID, 'Ok(<u64>::from_le_bytes(buf).into())', 'let _ = input.read_byte();\n\t\t\tOk(<u64>::from_le_bytes(buf).into())'))
b('b-max', ['C05'], (PID, '\t\tfn max_encoded_len() -> usize {\n\t\t\tmem::size_of::<u64>()', '\t\tfn max_encoded_len() -> usize {\n\t\t\tmem::size_of::<u32>()'))
b('b-fixed', ['C05'], (PID, 'Some(mem::size_of::<u64>())', 'Some(mem::size_of::<u128>())'))
b('b-hint', ['C05'], (PID, '\t\tfn size_hint(&self) -> usize {\n\t\t\tmem::size_of::<u64>()', '\t\tfn size_hint(&self) -> usize {\n\t\t\tmem::size_of::<u16>()'))
b('b-tinfo', ['C05'], (PID, 'TypeDefPrimitive::U64', 'TypeDefPrimitive::U128'))

# ---- locations
CONV = '''			match value.unpack() {
				(2, [GlobalConsensus(network)]) => Some(FungibleAssetLocation::External {
					network: (*network).try_into().ok()?,
					child: None,
				}),
				(2, [GlobalConsensus(network), Parachain(id), PalletInstance(pallet), GeneralIndex(index)]) => {
					Some(FungibleAssetLocation::External {
						network: (*network).try_into().ok()?,
						child: Some(Para {
							id: (*id).try_into().ok()?,
							pallet: *pallet,
							index: (*index).try_into().ok()?,
						}),
					})
				}
				(1, [Parachain(id), PalletInstance(pallet), GeneralIndex(index)]) => {
					Some(FungibleAssetLocation::Sibling(Para {
						id: (*id).try_into().ok()?,
						pallet: *pallet,
						index: (*index).try_into().ok()?,
					}))
				}
				(0, [PalletInstance(13), GeneralIndex(index)]) => {
					Some(FungibleAssetLocation::Here((*index).try_into().ok()?))
				}
				_ => None,
			}
'''
HERE = '''				(0, [PalletInstance(13), GeneralIndex(index)]) => {
					Some(FungibleAssetLocation::Here((*index).try_into().ok()?))
				}
'''
BACK_HERE = 'Some(Location::new(0, [PalletInstance(13), GeneralIndex(index.into())]))'
q('l-nested', (LOC, CONV, '''			let (parents, junctions) = value.unpack();
			match parents {
				0 => match junctions {
					[PalletInstance(13), GeneralIndex(index)] => u32::try_from(*index).ok().map(FungibleAssetLocation::Here),
					_ => None,
				},
				1 => match junctions {
					[Parachain(id), PalletInstance(pallet), GeneralIndex(index)] => {
						Some(FungibleAssetLocation::Sibling(para(*id, *pallet, *index)?))
					}
					_ => None,
				},
				2 => match junctions {
					[GlobalConsensus(n)] => Some(FungibleAssetLocation::External { network: super::NetworkId::try_from(*n).ok()?, child: None }),
					[GlobalConsensus(n), Parachain(id), PalletInstance(pallet), GeneralIndex(index)] => {
						let network = super::NetworkId::try_from(*n).ok()?;
						let child = Some(para(*id, *pallet, *index)?);
						Some(FungibleAssetLocation::External { network, child })
					}
					_ => None,
				},
				_ => None,
			}
'''), (LOC, '	pub struct AsFungibleAssetLocation;\n', '''	fn para(id: u32, pallet: u8, index: u128) -> Option<Para> {
		Some(Para { id: id.try_into().ok()?, pallet, index: u32::try_from(index).ok()? })
	}

	pub struct AsFungibleAssetLocation;
'''))
q('l-guard', (LOC, HERE, '''				(0, [PalletInstance(p), GeneralIndex(index)]) if *p == 13 && *index <= u32::MAX as u128 => {
					Some(FungibleAssetLocation::Here(*index as u32))
				}
'''))
q('l-const', (LOC, 'PalletInstance(13)', 'PalletInstance(ASSETS)'), (LOC, '	pub struct AsFungibleAssetLocation;\n', '	const ASSETS: u8 = 13;\n	pub struct AsFungibleAssetLocation;\n'))
q('l-iflet', (LOC, CONV, '''			if let (0, [PalletInstance(13), GeneralIndex(index)]) = value.unpack() {
				let index = u32::try_from(*index).ok()?;
				return Some(index.into());
			}
			if let (1, [Parachain(id), PalletInstance(pallet), GeneralIndex(index)]) = value.unpack() {
				return match ((*id).try_into(), (*index).try_into()) {
					(Ok(id), Ok(index)) => Some(FungibleAssetLocation::Sibling(Para { id, pallet: *pallet, index })),
					_ => None,
				};
			}
			let (2, [GlobalConsensus(network), rest @ ..]) = value.unpack() else { return None };
			let network = (*network).try_into().ok()?;
			let child = match rest {
				[] => None,
				[Parachain(id), PalletInstance(pallet), GeneralIndex(index)] => Some(Para {
					id: (*id).try_into().ok()?,
					pallet: *pallet,
					index: (*index).try_into().ok()?,
				}),
				_ => return None,
			};
			Some(FungibleAssetLocation::External { network, child })
'''))
q('l-andthen', (LOC, HERE, '''				(0, [PalletInstance(13), GeneralIndex(index)]) => {
					u32::try_from(*index).map(|i| FungibleAssetLocation::Here(i)).ok()
				}
'''))
q('l-matches', (LOC, HERE, '''				(0, [PalletInstance(13), GeneralIndex(index)]) => match u32::try_from(*index) {
					Ok(index) => Some(index.into()),
					Err(_) => None,
				},
'''))
q('l-checked', (LOC, 'id: (*id).try_into().ok()?,', 'id: if *id <= u16::MAX.into() { *id as u16 } else { return None },'))
q('l-back-ref', (LOC, BACK_HERE, 'Some(Location::new(0, [PalletInstance(13), GeneralIndex(u128::from(index))]))'))
q('l-back-as', (LOC, BACK_HERE, 'Some(Location::new(0, [PalletInstance(13), GeneralIndex(index as u128)]))'))
q('l-back-let', (LOC, BACK_HERE, 'let asset = GeneralIndex(index.into());\n\t\t\t\t\tlet pallet = PalletInstance(13);\n\t\t\t\t\tSome(Location::new(0, [pallet, asset]))'))
q('l-net-if', (LOC, '''			match value {
				super::NetworkId::Polkadot => NetworkId::Polkadot,
				super::NetworkId::Kusama => NetworkId::Kusama,
				super::NetworkId::Ethereum { chain_id } => NetworkId::Ethereum { chain_id },
			}
''', '''			use super::NetworkId as Ours;
			if let Ours::Ethereum { chain_id } = value {
				return NetworkId::Ethereum { chain_id };
			}
			if value == Ours::Polkadot { NetworkId::Polkadot } else { NetworkId::Kusama }
'''))
b('l-b-idx', ['C07', 'C06'], (LOC, HERE, '''				(0, [PalletInstance(13), GeneralIndex(index)]) => Some(FungibleAssetLocation::Here(*index as u32)),
'''))
b('l-b-sat', ['C07', 'C06'], (LOC, HERE, '''				(0, [PalletInstance(13), GeneralIndex(index)]) => {
					Some(FungibleAssetLocation::Here((*index).try_into().unwrap_or(u32::MAX)))
				}
'''))
b('l-b-swap', ['C06'], (LOC, 'super::NetworkId::Polkadot => NetworkId::Polkadot,', 'super::NetworkId::Polkadot => NetworkId::Kusama,'))
b('l-b-pallet', ['C08'], (LOC, 'PalletInstance(13)', 'PalletInstance(14)'))
b('l-b-pallet2', ['C08', 'C06'], (LOC, '(0, [PalletInstance(13), GeneralIndex(index)]) =>', '(0, [PalletInstance(_), GeneralIndex(index)]) =>'))
b('l-b-parents', ['C06'], (LOC, '(1, [Parachain(id), PalletInstance(pallet), GeneralIndex(index)]) =>', '(0 | 1, [Parachain(id), PalletInstance(pallet), GeneralIndex(index)]) =>'))
b('l-b-rest', ['C06'], (LOC, '(2, [GlobalConsensus(network)]) =>', '(2, [GlobalConsensus(network), ..]) =>'))
b('l-b-unwrap', ['C07'], (LOC, '''					Some(FungibleAssetLocation::Sibling(Para {
						id: (*id).try_into().ok()?,''', '''					Some(FungibleAssetLocation::Sibling(Para {
						id: (*id).try_into().unwrap(),'''))
b('l-b-chain', ['C06'], (LOC, 'super::NetworkId::Ethereum { chain_id } => NetworkId::Ethereum { chain_id },', 'super::NetworkId::Ethereum { chain_id } => NetworkId::Ethereum { chain_id: chain_id & 0xFFFF },'))
b('l-b-child', ['C07', 'C06'], (LOC, '''						child: Some(Para {
							id: (*id).try_into().ok()?,
							pallet: *pallet,
							index: (*index).try_into().ok()?,''', '''						child: Some(Para {
							id: (*id).try_into().ok()?,
							pallet: *pallet,
							index: *index as u32,'''))
b('l-b-runtime', ['C08'], ('runtime/kreivo/src/lib.rs', '#[runtime::pallet_index(13)]', '#[runtime::pallet_index(18)]'))

FROM = 'FungibleAssetLocation::Here(value)'
b('n-b-default', ['C09'], (LOC, 'Self::Here(0)', 'Self::Here(1)'))
b('n-b-narrow', ['C09'], (LOC, FROM, 'FungibleAssetLocation::Here(value & 0xFFFF)'))
b('n-b-mix', ['C09'], (LOC, FROM, 'match value >> 24 { 0 => FungibleAssetLocation::Here(value), p => FungibleAssetLocation::Sibling(Para { id: 1000, pallet: p as u8, index: value & 0xFF_FFFF }) }'))
b('n-b-one', ['C09'], (LOC, FROM, 'FungibleAssetLocation::Here(value.saturating_sub(1))'))
b('n-b-cfg', ['C09'], (LOC, FROM, 'FungibleAssetLocation::Here(if cfg!(feature = "runtime") { value } else { value.max(1) })'))
q('n-g-into', (LOC, 'Self::Here(0)', '0u32.into()'))
q('n-g-let', (LOC, FROM, 'let index = value;\n\t\tSelf::Here(index)'))
q('n-g-fn', (LOC, FROM, 'Self::local(value)'), (LOC, 'impl Default for FungibleAssetLocation {', 'impl FungibleAssetLocation {\n\tconst fn local(index: u32) -> Self {\n\t\tSelf::Here(index)\n\t}\n}\n\nimpl Default for FungibleAssetLocation {'))
q('n-g-from', (LOC, 'Self::Here(0)', 'Self::from(u32::MIN)'))

# C10
VARS = '''	Here(u32),
	Sibling(Para),
	External { network: NetworkId, child: Option<Para> },
'''
PARA = '''	id: u16,
	pallet: u8,
	index: u32,
'''
NETS = '''	Polkadot,
	Kusama,
	Ethereum { chain_id: u64 },
}

impl Default'''
q('f-g-index', (LOC, VARS, '''	#[cfg_attr(feature = "runtime", codec(index = 2))]
	External { network: NetworkId, child: Option<Para> },
	#[cfg_attr(feature = "runtime", codec(index = 0))]
	Here(u32),
	#[cfg_attr(feature = "runtime", codec(index = 1))]
	Sibling(Para),
'''))
q('f-g-alias', (LOC, PARA, PARA.replace('u16', 'ParaId').replace('u32', 'AssetIndex')), (LOC, 'impl Default for FungibleAssetLocation {', 'pub type ParaId = u16;\npub type AssetIndex = u32;\n\nimpl Default for FungibleAssetLocation {'))
q('f-g-max', (LOC, '	pallet: u8,\n', '	#[cfg_attr(feature = "runtime", serde(default))]\n	pallet: u8,\n'))
b('f-b-nets', ['C10'], (LOC, NETS, NETS.replace('	Polkadot,\n	Kusama,\n', '	Kusama,\n	Polkadot,\n')))
b('f-b-vars', ['C10'], (LOC, VARS, '''	Sibling(Para),
	Here(u32),
	External { network: NetworkId, child: Option<Para> },
'''))
b('f-b-fields', ['C10'], (LOC, PARA, '	id: u16,\n	index: u32,\n	pallet: u8,\n'))
b('f-b-compact', ['C10'], (LOC, PARA, PARA.replace('	index', '	#[cfg_attr(feature = "runtime", codec(compact))]\n	index')))
b('f-b-skip', ['C10'], (LOC, PARA, PARA.replace('	pallet', '	#[cfg_attr(feature = "runtime", codec(skip))]\n	pallet')))
b('f-b-tag', ['C10'], (LOC, '	External {', '	#[cfg_attr(feature = "runtime", codec(index = 3))]\n	External {'))
b('f-b-order', ['C10'], (LOC, 'External { network: NetworkId, child: Option<Para> },', 'External { child: Option<Para>, network: NetworkId },'))
b('f-b-wide', ['C10'], (LOC, PARA, PARA.replace('u16', 'u32')))
b('f-b-front', ['C10'], (LOC, NETS, '	#[cfg_attr(feature = "runtime", codec(index = 3))]\n' + NETS.replace('	Kusama,\n', '	Kusama,\n', 1)))

# larger rewrites
LIB = 'common/src/lib.rs'


def body(path, sig, new):
    """the edit that gives the block following a piece of text another content"""
    def f(s):
        assert s.count(sig) == 1, (sig, s.count(sig))
        i = s.index('{', s.index(sig) + len(sig))
        d, j = 0, i
        while True:
            d += {'{': 1, '}': -1}.get(s[j], 0)
            if d == 0:
                break
            j += 1
        return s[:i] + '{' + new + '}' + s[j + 1:]
    return (path, f, '')


FROMU = 'impl From<u64> for PaymentId {\n\tfn from(value: u64) -> Self'
TOU = 'impl From<PaymentId> for u64 {\n\tfn from(id: PaymentId) -> Self'
TUP = 'fn from((block, idx, extra): (u32, u32, &[u8])) -> Self'
PARSE = 'fn from_str(s: &str) -> Result<Self, Self::Err>'
FMT = "fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result"
END = '#[cfg(all(test, feature = "nightly"))]'
CONV = 'fn convert(value: &Location) -> Option<FungibleAssetLocation>'
BACK = 'fn convert_back(value: &FungibleAssetLocation) -> Option<Location>'
USING = 'fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R'
DECODE = 'fn decode<I: Input>(input: &mut I) -> Result<Self, Error>'


def before(path, mark, text):
    return (path, mark, text + mark)


q('x-from-fromfn', body(PID, FROMU, '''
		let byte = |i: usize| (value >> (8 * i)) as u8;
		let [a, b, c, d]: [u8; 4] = core::array::from_fn(|i| byte(4 + i));
		PaymentId {
			prefix: core::array::from_fn(byte),
			index: u16::from(byte(2)) | u16::from(byte(3)) << 8,
			block: u32::from_le_bytes([a, b, c, d]),
		}
	'''))
q('x-from-splitat', body(PID, FROMU, '''
		let val = value.to_le_bytes();
		let (low, high) = val.split_at(4);
		let (prefix, index) = low.split_at(2);
		PaymentId {
			prefix: prefix.try_into().unwrap(),
			index: u16::from_le_bytes(index.try_into().unwrap()),
			block: u32::from_le_bytes(high.try_into().unwrap()),
		}
	'''))
q('x-from-chunks', body(PID, FROMU, '''
		let val = value.to_le_bytes();
		let mut words = val.chunks_exact(2).map(|w| u16::from_le_bytes([w[0], w[1]]));
		let prefix = words.next().unwrap().to_le_bytes();
		let index = words.next().unwrap();
		let low = words.next().unwrap() as u32;
		let high = words.next().unwrap() as u32;
		PaymentId { prefix, index, block: low | (high << 16) }
	'''))
q('x-from-div', body(PID, FROMU, '''
		let block = (value / 0x1_0000_0000) as u32;
		let rest = value % 0x1_0000_0000;
		let index = (rest / 0x1_0000) as u16;
		let prefix = ((rest % 0x1_0000) as u16).to_le_bytes();
		Self { prefix, index, block }
	'''))
q('x-from-macro', body(PID, FROMU, '''
		let val = value.to_le_bytes();
		PaymentId {
			prefix: part!(val, [u8; 2], 0),
			index: u16::from_le_bytes(part!(val, [u8; 2], 2)),
			block: u32::from_le_bytes(part!(val, [u8; 4], 4)),
		}
	'''), before(PID, 'impl From<u64> for PaymentId {', '''macro_rules! part {
	($bytes:expr, [u8; $n:literal], $at:literal) => {{
		let mut out = [0u8; $n];
		out.copy_from_slice(&$bytes[$at..$at + $n]);
		out
	}};
}

'''))
q('x-from-generic', body(PID, FROMU, '''
		let val = value.to_le_bytes();
		PaymentId {
			prefix: take::<2>(&val, 0),
			index: u16::from_le_bytes(take(&val, 2)),
			block: u32::from_le_bytes(take(&val, 4)),
		}
	'''), before(PID, 'impl From<u64> for PaymentId {', '''fn take<const N: usize>(from: &[u8], at: usize) -> [u8; N] {
	let mut out = [0; N];
	for (i, byte) in out.iter_mut().enumerate() {
		*byte = from[at + i];
	}
	out
}

'''))
q('x-from-via-tuple', body(PID, FROMU, '''
		let val = value.to_le_bytes();
		let index = u16::from_le_bytes([val[2], val[3]]);
		((value >> 32) as u32, u32::from(index), &val[..2]).into()
	'''))
q('x-from-newfile', body(PID, FROMU, '''
		let (prefix, index, block) = crate::bits::parts(value);
		PaymentId { prefix, index, block }
	'''), (LIB, 'mod payment_id;', 'mod bits;\nmod payment_id;'), ('common/src/bits.rs', '$NEW', '''/// The fields packed in a number
pub(crate) fn parts(n: u64) -> ([u8; 2], u16, u32) {
	let [a, b, c, d, rest @ ..] = n.to_le_bytes();
	([a, b], u16::from_le_bytes([c, d]), u32::from_le_bytes(rest))
}

/// The number the fields are packed in
pub(crate) const fn pack(prefix: [u8; 2], index: u16, block: u32) -> u64 {
	u16::from_le_bytes(prefix) as u64 | (index as u64) << 16 | (block as u64) << 32
}
'''), body(PID, TOU, '''
		crate::bits::pack(id.prefix, id.index, id.block)
	'''))
q('x-from-bechain', body(PID, FROMU, '''
		let [b3, b2, b1, b0, i1, i0, p1, p0] = value.to_be_bytes();
		Self {
			block: u32::from_be_bytes([b3, b2, b1, b0]),
			index: u16::from_be_bytes([i1, i0]),
			prefix: [p0, p1],
		}
	'''))
q('x-from-iter', body(PID, FROMU, '''
		let val = value.to_le_bytes();
		let mut it = val.iter().copied();
		let mut prefix = [0; 2];
		for p in prefix.iter_mut() {
			*p = it.next().unwrap();
		}
		let index = it.by_ref().take(2).enumerate().fold(0u16, |n, (i, b)| n | (b as u16) << (8 * i));
		let block = it.enumerate().fold(0u32, |n, (i, b)| n | (b as u32) << (8 * i));
		PaymentId { prefix, index, block }
	'''))
q('x-to-concat', body(PID, TOU, '''
		let mut out = [0u8; 8];
		let (prefix, rest) = out.split_at_mut(2);
		prefix.copy_from_slice(&id.prefix);
		let (index, block) = rest.split_at_mut(2);
		index.copy_from_slice(&id.index.to_le_bytes());
		block.copy_from_slice(&id.block.to_le_bytes());
		u64::from_le_bytes(out)
	'''))
q('x-to-destructure', body(PID, TOU, '''
		let PaymentId { prefix: [p0, p1], index, block } = id;
		let [i0, i1] = index.to_le_bytes();
		let [b0, b1, b2, b3] = block.to_le_bytes();
		u64::from_le_bytes([p0, p1, i0, i1, b0, b1, b2, b3])
	'''))
q('x-to-rev', body(PID, TOU, '''
		id.as_ref().iter().rev().fold(0, |n: u64, b| n << 8 | u64::from(*b))
	'''))
q('x-to-chain', body(PID, TOU, '''
		let index = id.index.to_le_bytes();
		let block = id.block.to_le_bytes();
		let bytes = id.prefix.iter().chain(index.iter()).chain(block.iter());
		let mut out = [0u8; 8];
		for (slot, byte) in out.iter_mut().zip(bytes) {
			*slot = *byte;
		}
		u64::from_le_bytes(out)
	'''))
q('x-to-unsafe', body(PID, TOU, '''
		// same layout
		u64::from_le(unsafe { core::mem::transmute::<PaymentId, u64>(id) })
	'''))
q('x-to-pow', body(PID, TOU, '''
		let low = u64::from(id.prefix[0]) + u64::from(id.prefix[1]) * 256;
		low + u64::from(id.index) * 256u64.pow(2) + u64::from(id.block) * 256u64.pow(4)
	'''))
q('x-to-u32s', body(PID, TOU, '''
		let low = u32::from_le_bytes([id.prefix[0], id.prefix[1], id.index as u8, (id.index >> 8) as u8]);
		(u64::from(id.block) << 32) | u64::from(low)
	'''))
q('x-tuple-chunk', body(PID, TUP, '''
		debug_assert!(extra.len() >= 2);
		let (prefix, _) = extra.split_at(2);
		let mut id = PaymentId::default();
		id.prefix.copy_from_slice(prefix);
		id.block = block;
		id.index = (idx % (1 << 16)) as u16;
		id
	'''))
q('x-tuple-le', body(PID, TUP, '''
		debug_assert!(extra.len() >= 2);
		let [i0, i1, _, _] = idx.to_le_bytes();
		PaymentId {
			index: u16::from_le_bytes([i0, i1]),
			prefix: core::array::from_fn(|i| extra[i]),
			block,
		}
	'''))
q('x-tuple-builder', body(PID, TUP, '''
		debug_assert!(extra.len() >= 2);
		PaymentId::default().at(block, idx).with(extra[0], extra[1])
	'''), before(PID, 'impl From<PaymentId> for u64 {', '''impl PaymentId {
	fn at(mut self, block: u32, idx: u32) -> Self {
		self.block = block;
		self.index = (idx & u32::from(u16::MAX)) as u16;
		self
	}

	fn with(self, a: u8, b: u8) -> Self {
		Self { prefix: [a, b], ..self }
	}
}

'''))
q('x-asref-bytes', (PID, 'unsafe { core::slice::from_raw_parts((self as *const PaymentId) as *const u8, core::mem::size_of::<Self>()) }',
                    'let at = core::ptr::from_ref(self).cast::<u8>();\n\t\tunsafe { core::slice::from_raw_parts(at, 8) }'))
q('x-parse-replace', body(PID, PARSE, '''
		let mut tmp = [0u8; 12];
		let input = match s.split_once('-') {
			None => s,
			Some((p1, p2)) => {
				let (head, tail) = (p1.as_bytes(), p2.as_bytes());
				let total = head.len() + tail.len();
				if total > tmp.len() {
					return Err(());
				}
				for (slot, byte) in tmp.iter_mut().zip(head.iter().chain(tail)) {
					*slot = *byte;
				}
				tmp[..total].as_ascii().ok_or(())?.as_str()
			}
		};
		let mut out = [0u8; 8];
		match bs58::decode(input).onto(&mut out[..]) {
			Ok(8) => Ok(PaymentId::from(u64::from_le_bytes(out))),
			_ => Err(()),
		}
	'''))
q('x-parse-fns', body(PID, PARSE, '''
		let mut tmp = [0u8; 12];
		let text = match s.split_once('-') {
			Some((p1, p2)) => join(&mut tmp, p1, p2)?,
			None => s,
		};
		decode(text).map(u64::from_le_bytes).map(Self::from)
	'''), before(PID, '#[cfg(feature = "nightly")]\nimpl core::str::FromStr', '''#[cfg(feature = "nightly")]
fn join<'a>(tmp: &'a mut [u8; 12], p1: &str, p2: &str) -> Result<&'a str, ()> {
	let len = p1.len() + p2.len();
	if len > 12 {
		return Err(());
	}
	let (a, b) = tmp[..len].split_at_mut(p1.len());
	a.copy_from_slice(p1.as_bytes());
	b.copy_from_slice(p2.as_bytes());
	Ok(tmp[..len].as_ascii().ok_or(())?.as_str())
}

#[cfg(feature = "nightly")]
fn decode(text: &str) -> Result<[u8; 8], ()> {
	let mut out = [0u8; 8];
	let len = bs58::decode(text).onto(&mut out[..]).map_err(|_| ())?;
	(len == 8).then_some(out).ok_or(())
}

'''))
q('x-parse-letelse', body(PID, PARSE, '''
		let mut tmp = [0u8; 12];
		let mut input = s;
		if let Some((p1, p2)) = s.split_once('-') {
			let len = p1.len() + p2.len();
			let Some(buf) = tmp.get_mut(..len) else {
				return Err(());
			};
			buf[..p1.len()].copy_from_slice(p1.as_bytes());
			buf[p1.len()..].copy_from_slice(p2.as_bytes());
			let Some(ascii) = buf.as_ascii() else {
				return Err(());
			};
			input = ascii.as_str();
		}
		let mut out = [0u8; 8];
		let Ok(len) = bs58::decode(input).onto(&mut out[..]) else {
			return Err(());
		};
		if len < 8 {
			return Err(());
		}
		Ok(u64::from_le_bytes(out).into())
	'''))
q('x-parse-fromfields', (PID, 'Ok(u64::from_le_bytes(out).into())\n\t}\n}\n\n#[cfg(feature = "nightly")]\nimpl core::fmt::Display', '''let [p0, p1, i0, i1, b0, b1, b2, b3] = out;
		Ok(PaymentId {
			prefix: [p0, p1],
			index: u16::from_le_bytes([i0, i1]),
			block: u32::from_le_bytes([b0, b1, b2, b3]),
		})
	}
}

#[cfg(feature = "nightly")]
impl core::fmt::Display'''))
q('x-parse-const', (PID, '		let mut tmp = [0u8; 12];\n		let mut input', '		const MAX: usize = 12;\n		let mut tmp = [0u8; MAX];\n		let mut input'), (PID, 'if len_without_sep > tmp.len()', 'if len_without_sep > MAX'))
q('x-fmt-splitat', body(PID, FMT, '''
		let mut out = [0u8; 12];
		let n = bs58::encode(self).onto(&mut out[..]).map_err(|_| core::fmt::Error)?;
		let text = out[..n].as_ascii().ok_or(core::fmt::Error)?.as_str();
		let (head, tail) = text.split_at(5);
		f.write_str(head)?;
		if f.alternate() {
			f.write_str("-")?;
		}
		f.write_str(tail)
	'''))
q('x-fmt-onewrite', body(PID, FMT, '''
		let mut out = [0u8; 12];
		let n = bs58::encode(self).onto(&mut out[..]).map_err(|_| core::fmt::Error)?;
		let text = out[..n].as_ascii().ok_or(core::fmt::Error)?.as_str();
		let sep = if f.alternate() { "-" } else { "" };
		let (head, tail) = (&text[..5], &text[5..]);
		write!(f, "{head}{sep}{tail}")
	'''))
q('x-fmt-number', body(PID, FMT, '''
		let mut out = [0u8; 12];
		let number = self.to_number().to_le_bytes();
		let n = bs58::encode(number).onto(&mut out[..]).map_err(|_| core::fmt::Error)?;
		let out = out[..n].as_ascii().ok_or(core::fmt::Error)?.as_str();
		match f.alternate() {
			true => write!(f, "{}-{}", &out[..5], &out[5..]),
			false => write!(f, "{}{}", &out[..5], &out[5..]),
		}
	'''))
q('x-fmt-args', body(PID, FMT, '''
		let mut out = [0u8; 12];
		let n = bs58::encode(self).onto(&mut out[..]).map_err(|_| core::fmt::Error)?;
		let out = out[..n].as_ascii().ok_or(core::fmt::Error)?.as_str();
		f.write_fmt(format_args!("{}", &out[..5]))?;
		f.alternate().then(|| f.write_str("-")).transpose()?;
		f.write_fmt(format_args!("{}", &out[5..]))
	'''))
q('x-fmt-slices', body(PID, FMT, '''
		let mut out = [0u8; 12];
		let n = bs58::encode(self).onto(&mut out[..]).map_err(|_| core::fmt::Error)?;
		let ascii = out[..n].as_ascii().ok_or(core::fmt::Error)?;
		let parts = if f.alternate() { [ascii[..5].as_str(), "-", ascii[5..].as_str()] } else { [ascii[..5].as_str(), "", ascii[5..].as_str()] };
		parts.iter().try_for_each(|p| f.write_str(p))
	'''))
q('x-cod-fn', body(PID, USING, '''
			let n: u64 = (*self).into();
			n.using_encoded(f)
		'''))
q('x-cod-slice', body(PID, USING, '''
			let mut buf = [0u8; 8];
			for (i, b) in buf.iter_mut().enumerate() {
				*b = (self.to_number() >> (i * 8)) as u8;
			}
			f(buf.as_slice())
		'''))
q('x-dec-map', body(PID, DECODE, '''
			let mut buf = [0u8; 8];
			input.read(&mut buf).map(|()| PaymentId::from(u64::from_le_bytes(buf)))
		'''))
q('x-dec-bytes', body(PID, DECODE, '''
			let prefix = [input.read_byte()?, input.read_byte()?];
			let index = u16::decode(input)?;
			let block = u32::decode(input)?;
			Ok(PaymentId { prefix, index, block })
		'''))
q('x-eq-manual', (PID, '#[derive(Debug, Default, Clone, Eq, Copy, PartialEq)]', '#[derive(Debug, Clone, Eq, Copy)]'), before(PID, 'impl From<PaymentId> for u64 {', '''impl Default for PaymentId {
	fn default() -> Self {
		Self::from_number(0)
	}
}

impl PartialEq for PaymentId {
	fn eq(&self, other: &Self) -> bool {
		let (PaymentId { prefix, index, block }, o) = (self, other);
		(prefix, index, block) == (&o.prefix, &o.index, &o.block)
	}
}

'''))
q('x-split-mod', (LIB, 'mod payment_id;', 'mod ident;\nmod payment_id;'), ('common/src/ident.rs', '$NEW', '''/// Width of the random part
pub(crate) const EXTRA: usize = 2;

pub(crate) trait Packed: Copy {
	type Bytes;
	fn packed(self) -> Self::Bytes;
}

impl Packed for u16 {
	type Bytes = [u8; 2];
	fn packed(self) -> [u8; 2] {
		self.to_le_bytes()
	}
}

impl Packed for u32 {
	type Bytes = [u8; 4];
	fn packed(self) -> [u8; 4] {
		self.to_le_bytes()
	}
}
'''), body(PID, TOU, '''
		use crate::ident::Packed;
		let mut out = [0; 8];
		out[..crate::ident::EXTRA].copy_from_slice(&id.prefix);
		out[2..4].copy_from_slice(&id.index.packed());
		out[4..].copy_from_slice(&id.block.packed());
		u64::from_le_bytes(out)
	'''))
PARAS = '''
			fn para(id: u32, pallet: u8, index: u128) -> Option<Para> {
				Some(Para { id: id.try_into().ok()?, pallet, index: index.try_into().ok()? })
			}
'''
q('x-l-para-fn', body(LOC, CONV, PARAS + '''
			match value.unpack() {
				(2, [GlobalConsensus(network), rest @ ..]) => {
					let network = (*network).try_into().ok()?;
					let child = match rest {
						[] => None,
						[Parachain(id), PalletInstance(pallet), GeneralIndex(index)] => Some(para(*id, *pallet, *index)?),
						_ => return None,
					};
					Some(FungibleAssetLocation::External { network, child })
				}
				(1, [Parachain(id), PalletInstance(pallet), GeneralIndex(index)]) => {
					para(*id, *pallet, *index).map(FungibleAssetLocation::Sibling)
				}
				(0, [PalletInstance(13), GeneralIndex(index)]) => u32::try_from(*index).ok().map(FungibleAssetLocation::Here),
				_ => None,
			}
		'''))
q('x-l-byparents', body(LOC, CONV, PARAS + '''
			let (parents, junctions) = value.unpack();
			match parents {
				0 => {
					if let [PalletInstance(13), GeneralIndex(index)] = junctions {
						return Some(u32::try_from(*index).ok()?.into());
					}
					None
				}
				1 => match *junctions {
					[Parachain(id), PalletInstance(pallet), GeneralIndex(index)] => Some(FungibleAssetLocation::Sibling(para(id, pallet, index)?)),
					_ => None,
				},
				2 => {
					let (first, rest) = junctions.split_first()?;
					let GlobalConsensus(network) = first else { return None };
					let network = super::NetworkId::try_from(*network).ok()?;
					if rest.is_empty() {
						return Some(FungibleAssetLocation::External { network, child: None });
					}
					let [Parachain(id), PalletInstance(pallet), GeneralIndex(index)] = rest else { return None };
					Some(FungibleAssetLocation::External { network, child: Some(para(*id, *pallet, *index)?) })
				}
				_ => None,
			}
		'''))
q('x-l-sizes', body(LOC, CONV, '''
			let (parents, junctions) = value.unpack();
			match (parents, junctions.len()) {
				(0, 2) => match (&junctions[0], &junctions[1]) {
					(PalletInstance(13), GeneralIndex(i)) if *i <= u32::MAX as u128 => Some(FungibleAssetLocation::Here(*i as u32)),
					_ => None,
				},
				(1, 3) => read(junctions).map(FungibleAssetLocation::Sibling),
				(2, 1) | (2, 4) => {
					let GlobalConsensus(network) = junctions[0] else { return None };
					let network = network.try_into().ok()?;
					let child = if junctions.len() == 1 { None } else { Some(read(&junctions[1..])?) };
					Some(FungibleAssetLocation::External { network, child })
				}
				_ => None,
			}
		'''), before(LOC, '	pub struct AsFungibleAssetLocation;', '''	fn read(junctions: &[xcm::latest::Junction]) -> Option<Para> {
		match junctions {
			&[Parachain(id), PalletInstance(pallet), GeneralIndex(index)] => {
				let (Ok(id), Ok(index)) = (u16::try_from(id), u32::try_from(index)) else {
					return None;
				};
				Some(Para { id, pallet, index })
			}
			_ => None,
		}
	}

'''))
q('x-l-tryfrom', body(LOC, CONV, '''
			match value.unpack() {
				(2, [GlobalConsensus(network)]) => Some(FungibleAssetLocation::External {
					network: (*network).try_into().ok()?,
					child: None,
				}),
				(2, [GlobalConsensus(network), tail @ ..]) => Some(FungibleAssetLocation::External {
					network: (*network).try_into().ok()?,
					child: Some(tail.try_into().ok()?),
				}),
				(1, tail) => Para::try_from(tail).ok().map(FungibleAssetLocation::Sibling),
				(0, &[PalletInstance(13), GeneralIndex(index)]) => index.try_into().ok().map(FungibleAssetLocation::Here),
				_ => None,
			}
		'''), before(LOC, '	pub struct AsFungibleAssetLocation;', '''	impl TryFrom<&[xcm::latest::Junction]> for Para {
		type Error = ();

		fn try_from(value: &[xcm::latest::Junction]) -> Result<Self, ()> {
			if let [Parachain(id), PalletInstance(pallet), GeneralIndex(index)] = value {
				Ok(Para {
					id: u16::try_from(*id).map_err(|_| ())?,
					pallet: *pallet,
					index: u32::try_from(*index).map_err(|_| ())?,
				})
			} else {
				Err(())
			}
		}
	}

'''))
q('x-l-back-some', body(LOC, BACK, '''
			Some(match *value {
				FungibleAssetLocation::Here(index) => Location::new(0, [PalletInstance(13), GeneralIndex(index as u128)]),
				FungibleAssetLocation::Sibling(para) => Location::new(1, junctions(para)),
				FungibleAssetLocation::External { network, child } => {
					let first = GlobalConsensus(network.into());
					match child {
						None => Location::new(2, [first]),
						Some(para) => {
							let [a, b, c] = junctions(para);
							Location::new(2, [first, a, b, c])
						}
					}
				}
			})
		'''), before(LOC, '	pub struct AsFungibleAssetLocation;', '''	fn junctions(Para { id, pallet, index }: Para) -> [xcm::latest::Junction; 3] {
		[Parachain(id.into()), PalletInstance(pallet), GeneralIndex(index.into())]
	}

'''))
q('x-l-net-macro', body(LOC, 'fn from(value: super::NetworkId) -> NetworkId', '''
			use super::NetworkId as Ours;
			match value {
				Ours::Ethereum { chain_id: id } => Self::Ethereum { chain_id: id },
				Ours::Kusama => Self::Kusama,
				Ours::Polkadot => Self::Polkadot,
			}
		'''), body(LOC, 'fn try_from(value: NetworkId) -> Result<super::NetworkId, Self::Error>', '''
			use super::NetworkId as Ours;
			let known = match value {
				NetworkId::Polkadot => Some(Ours::Polkadot),
				NetworkId::Kusama => Some(Ours::Kusama),
				NetworkId::Ethereum { chain_id } => Some(Ours::Ethereum { chain_id }),
				_ => None,
			};
			known.ok_or("This network is not supported")
		'''))
q('x-parse-foreach', body(PID, PARSE, '''
		let mut tmp = [0u8; 12];
		let mut input = s;
		if let Some((p1, p2)) = s.split_once('-') {
			let total = p1.len() + p2.len();
			if total > tmp.len() {
				return Err(());
			}
			tmp.iter_mut().zip(p1.bytes().chain(p2.bytes())).for_each(|(slot, b)| *slot = b);
			input = tmp[..total].as_ascii().ok_or(())?.as_str();
		}
		let mut out = [0u8; 8];
		let len = bs58::decode(input).onto(&mut out[..]).map_err(|_| ())?;
		if len != 8 {
			return Err(());
		}
		Ok(u64::from_le_bytes(out).into())
	'''))
q('x-parse-enum', body(PID, PARSE, '''
		let mut tmp = [0u8; 12];
		let input = if let Some((p1, p2)) = s.split_once('-') {
			let total = p1.len() + p2.len();
			if total > tmp.len() {
				return Err(());
			}
			for (i, b) in p1.bytes().chain(p2.bytes()).enumerate() {
				tmp[i] = b;
			}
			tmp[..total].as_ascii().ok_or(())?.as_str()
		} else {
			s
		};
		let mut out = [0u8; 8];
		match bs58::decode(input).onto(&mut out[..]) {
			Ok(n) if n == out.len() => Ok(u64::from_le_bytes(out).into()),
			Ok(_) | Err(_) => Err(()),
		}
	'''))
b('x-b-zip-short', ['C03'], body(PID, PARSE, '''
		let mut tmp = [0u8; 12];
		let mut input = s;
		if let Some((p1, p2)) = s.split_once('-') {
			let total = p1.len() + p2.len();
			if total > tmp.len() {
				return Err(());
			}
			for (slot, b) in tmp.iter_mut().zip(p2.bytes().chain(p1.bytes())) {
				*slot = b;
			}
			input = tmp[..total].as_ascii().ok_or(())?.as_str();
		}
		let mut out = [0u8; 8];
		let len = bs58::decode(input).onto(&mut out[..]).map_err(|_| ())?;
		if len != 8 {
			return Err(());
		}
		Ok(u64::from_le_bytes(out).into())
	'''))
b('x-b-zip-accept', ['C04'], body(PID, PARSE, '''
		let mut tmp = [0u8; 12];
		let mut input = s;
		if let Some((p1, p2)) = s.split_once('-') {
			for (slot, b) in tmp.iter_mut().zip(p1.bytes().chain(p2.bytes())) {
				*slot = b;
			}
			let total = (p1.len() + p2.len()).min(tmp.len());
			input = tmp[..total].as_ascii().ok_or(())?.as_str();
		}
		let mut out = [0u8; 8];
		let len = bs58::decode(input).onto(&mut out[..]).map_err(|_| ())?;
		if len != 8 {
			return Err(());
		}
		Ok(u64::from_le_bytes(out).into())
	'''))
b('x-b-generic', ['C01'], body(PID, FROMU, '''
		let val = value.to_le_bytes();
		PaymentId {
			prefix: take::<2>(&val, 0),
			index: u16::from_le_bytes(take(&val, 2)),
			block: u32::from_le_bytes(take(&val, 3)),
		}
	'''), before(PID, 'impl From<u64> for PaymentId {', '''fn take<const N: usize>(from: &[u8], at: usize) -> [u8; N] {
	let mut out = [0; N];
	for (i, byte) in out.iter_mut().enumerate() {
		*byte = from[at + i];
	}
	out
}

'''))
b('x-b-iter', ['C01'], body(PID, FROMU, '''
		let val = value.to_le_bytes();
		let mut it = val.iter().copied();
		let mut prefix = [0; 2];
		for p in prefix.iter_mut() {
			*p = it.next().unwrap();
		}
		let index = it.clone().take(2).enumerate().fold(0u16, |n, (i, b)| n | (b as u16) << (8 * i));
		let block = it.take(4).enumerate().fold(0u32, |n, (i, b)| n | (b as u32) << (8 * i));
		PaymentId { prefix, index, block }
	'''))
b('x-l-b-first', ['C06'], body(LOC, CONV, '''
			let (parents, junctions) = value.unpack();
			match parents {
				0 => match junctions {
					[PalletInstance(13), GeneralIndex(index)] => Some(u32::try_from(*index).ok()?.into()),
					_ => None,
				},
				1 => match *junctions {
					[Parachain(id), PalletInstance(pallet), GeneralIndex(index)] => Some(FungibleAssetLocation::Sibling(Para { id: id.try_into().ok()?, pallet, index: index.try_into().ok()? })),
					_ => None,
				},
				2 => {
					let (first, rest) = junctions.split_first()?;
					let GlobalConsensus(network) = first else { return None };
					let network = super::NetworkId::try_from(*network).ok()?;
					let child = match rest {
						[Parachain(id), PalletInstance(pallet), GeneralIndex(index)] => Some(Para { id: (*id).try_into().ok()?, pallet: *pallet, index: (*index).try_into().ok()? }),
						_ => None,
					};
					Some(FungibleAssetLocation::External { network, child })
				}
				_ => None,
			}
		'''))
b('x-l-b-tryfrom', ['C07'], body(LOC, CONV, '''
			match value.unpack() {
				(2, [GlobalConsensus(network)]) => Some(FungibleAssetLocation::External {
					network: (*network).try_into().ok()?,
					child: None,
				}),
				(2, [GlobalConsensus(network), tail @ ..]) => Some(FungibleAssetLocation::External {
					network: (*network).try_into().ok()?,
					child: Some(tail.try_into().ok()?),
				}),
				(1, tail) => Para::try_from(tail).ok().map(FungibleAssetLocation::Sibling),
				(0, &[PalletInstance(13), GeneralIndex(index)]) => index.try_into().ok().map(FungibleAssetLocation::Here),
				_ => None,
			}
		'''), before(LOC, '	pub struct AsFungibleAssetLocation;', '''	impl TryFrom<&[xcm::latest::Junction]> for Para {
		type Error = ();

		fn try_from(value: &[xcm::latest::Junction]) -> Result<Self, ()> {
			if let [Parachain(id), PalletInstance(pallet), GeneralIndex(index)] = value {
				Ok(Para {
					id: u16::try_from(*id).map_err(|_| ())?,
					pallet: *pallet,
					index: *index as u32,
				})
			} else {
				Err(())
			}
		}
	}

'''))
b('x-b-enum-off', ['C03'], body(PID, PARSE, '''
		let mut tmp = [0u8; 12];
		let input = if let Some((p1, p2)) = s.split_once('-') {
			let total = p1.len() + p2.len();
			if total > tmp.len() {
				return Err(());
			}
			for (i, b) in p1.bytes().enumerate() {
				tmp[i] = b;
			}
			for (i, b) in p2.bytes().rev().enumerate() {
				tmp[p1.len() + i] = b;
			}
			tmp[..total].as_ascii().ok_or(())?.as_str()
		} else {
			s
		};
		let mut out = [0u8; 8];
		match bs58::decode(input).onto(&mut out[..]) {
			Ok(8) => Ok(u64::from_le_bytes(out).into()),
			_ => Err(()),
		}
	'''))
q('x-parse-enum2', body(PID, PARSE, '''
		let mut tmp = [0u8; 12];
		let input = if let Some((p1, p2)) = s.split_once('-') {
			let total = p1.len() + p2.len();
			if total > tmp.len() {
				return Err(());
			}
			for (i, b) in p1.bytes().enumerate() {
				tmp[i] = b;
			}
			for (i, b) in p2.bytes().enumerate() {
				tmp[p1.len() + i] = b;
			}
			tmp[..total].as_ascii().ok_or(())?.as_str()
		} else {
			s
		};
		let mut out = [0u8; 8];
		match bs58::decode(input).onto(&mut out[..]) {
			Ok(8) => Ok(u64::from_le_bytes(out).into()),
			_ => Err(()),
		}
	'''))

# other shapes of the same types and the library's own ways to build locations
q('y-bytes-field', (PID, '	prefix: [u8; 2],\n	index: u16,\n	block: u32,\n', '	bytes: [u8; 8],\n'),
  (PID, '		self.block\n', '		let [.., a, b, c, d] = self.bytes;\n		u32::from_le_bytes([a, b, c, d])\n'),
  (PID, '		self.index as u32\n', '		u32::from_le_bytes([self.bytes[2], self.bytes[3], 0, 0])\n'),
  body(PID, TOU, '\n		u64::from_le_bytes(id.bytes)\n	'), body(PID, FROMU, '\n		PaymentId { bytes: value.to_le_bytes() }\n	'),
  body(PID, TUP, '''
		debug_assert!(extra.len() >= 2);
		let mut bytes = [0; 8];
		bytes[..2].copy_from_slice(&extra[..2]);
		bytes[2..4].copy_from_slice(&(idx as u16).to_le_bytes());
		bytes[4..].copy_from_slice(&block.to_le_bytes());
		PaymentId { bytes }
	'''), (PID, '		debug_assert_eq!(8, core::mem::size_of::<Self>());\n		unsafe { core::slice::from_raw_parts((self as *const PaymentId) as *const u8, core::mem::size_of::<Self>()) }\n', '		&self.bytes\n'))
q('y-new-str', (PID, 'id.parse().unwrap_or(Default::default())', 'use core::str::FromStr;\n\t\tSelf::from_str(id).ok().unwrap_or_default()'))
q('y-new-parse', (PID, 'id.parse().unwrap_or(Default::default())', 'match id.parse::<Self>() {\n\t\t\tOk(parsed) => parsed,\n\t\t\tErr(()) => Self::from_number(0),\n\t\t}'))
q('y-tobytes-collect', (PID, 'self.as_ref().into()', 'self.to_number().to_le_bytes().iter().copied().collect()'))
q('y-tobytes-vec', (PID, 'self.as_ref().into()', 'let mut v = alloc::vec::Vec::with_capacity(8);\n\t\tv.extend_from_slice(&self.prefix);\n\t\tv.extend(self.index.to_le_bytes());\n\t\tv.extend(self.block.to_le_bytes());\n\t\tv'))
q('y-tobytes-loop', (PID, 'self.as_ref().into()', 'let mut v = alloc::vec::Vec::new();\n\t\tfor b in self.as_ref() {\n\t\t\tv.push(*b);\n\t\t}\n\t\tv'))
q('y-tobytes-macro', (PID, 'self.as_ref().into()', 'alloc::vec![self.prefix[0], self.prefix[1], self.index as u8, (self.index >> 8) as u8, self.block as u8, (self.block >> 8) as u8, (self.block >> 16) as u8, (self.block >> 24) as u8]'))
q('y-enc-fn', (PID, '''		if pretty {
			alloc::format!("{self:#}")
		} else {
			alloc::format!("{self}")
		}
''', '''		use core::fmt::Write;
		let mut text = alloc::string::String::new();
		let _ = match pretty {
			true => write!(text, "{self:#}"),
			false => write!(text, "{self}"),
		};
		text
'''))
q('y-enc-early', (PID, '''		if pretty {
			alloc::format!("{self:#}")
		} else {
			alloc::format!("{self}")
		}
''', '''		if !pretty {
			return alloc::format!("{}", self);
		}
		alloc::format!("{:#}", *self)
'''))
q('y-fmt-helper', body(PID, FMT, '''
		let mut out = [0u8; 12];
		let text = base58(self, &mut out).ok_or(core::fmt::Error)?;
		let (head, tail) = (text.get(..5).ok_or(core::fmt::Error)?, text.get(5..).ok_or(core::fmt::Error)?);
		f.write_str(head)?;
		if f.alternate() {
			core::fmt::Write::write_char(f, '-')?;
		}
		f.write_str(tail)
	'''), before(PID, '#[cfg(feature = "nightly")]\nimpl core::fmt::Display', '''#[cfg(feature = "nightly")]
fn base58<'a>(id: &PaymentId, out: &'a mut [u8; 12]) -> Option<&'a str> {
	let n = bs58::encode(id.as_ref()).onto(&mut out[..]).ok()?;
	out.get(..n)?.as_ascii().map(|a| a.as_str())
}

'''))
q('y-fmt-pieces', body(PID, FMT, '''
		let mut out = [0u8; 12];
		let n = bs58::encode(self).onto(&mut out[..]).map_err(|_| core::fmt::Error)?;
		let text = out[..n].as_ascii().ok_or(core::fmt::Error)?.as_str();
		for (i, c) in [&text[..5], &text[5..]].into_iter().enumerate() {
			if i == 1 && f.alternate() {
				f.write_str("-")?;
			}
			f.write_str(c)?;
		}
		Ok(())
	'''))
q('y-index-fn', (PID, 'self.index as u32', 'u32::from(self.position())'), before(PID, 'impl From<PaymentId> for u64 {', 'impl PaymentId {\n\tconst fn position(&self) -> u16 {\n\t\tself.index\n\t}\n}\n\n'))
q('y-maxlen', body(PID, 'fn max_encoded_len() -> usize', '\n\t\t\tu64::max_encoded_len()\n\t\t'), body(PID, 'fn encoded_fixed_size() -> Option<usize>', '\n\t\t\tu64::encoded_fixed_size()\n\t\t'))
q('y-hint', body(PID, 'fn size_hint(&self) -> usize', '\n\t\t\tself.to_number().size_hint()\n\t\t'))
q('y-dec-andthen', body(PID, DECODE, '\n\t\t\tu64::decode(input).map(Into::into)\n\t\t'))
q('y-dec-tuple', body(PID, DECODE, '\n\t\t\tlet (prefix, index, block) = <([u8; 2], u16, u32)>::decode(input)?;\n\t\t\tOk(PaymentId { prefix, index, block })\n\t\t'))
q('y-l-field', body(LOC, CONV, '''
			let Location { parents, interior } = value;
			match (*parents, interior.as_slice()) {
				(2, [GlobalConsensus(network)]) => Some(FungibleAssetLocation::External { network: (*network).try_into().ok()?, child: None }),
				(2, [GlobalConsensus(network), Parachain(id), PalletInstance(pallet), GeneralIndex(index)]) => Some(FungibleAssetLocation::External {
					network: (*network).try_into().ok()?,
					child: Some(Para { id: (*id).try_into().ok()?, pallet: *pallet, index: (*index).try_into().ok()? }),
				}),
				(1, [Parachain(id), PalletInstance(pallet), GeneralIndex(index)]) => Some(FungibleAssetLocation::Sibling(Para {
					id: (*id).try_into().ok()?,
					pallet: *pallet,
					index: (*index).try_into().ok()?,
				})),
				(0, [PalletInstance(13), GeneralIndex(index)]) => Some(FungibleAssetLocation::Here((*index).try_into().ok()?)),
				_ => None,
			}
		'''))
q('y-l-methods', (LOC, 'match value.unpack() {', 'match (value.parent_count(), value.interior().as_slice()) {'))
q('y-l-net-fn', (LOC, '''					network: (*network).try_into().ok()?,
					child: None,''', '''					network: ours(*network)?,
					child: None,'''), before(LOC, '	pub struct AsFungibleAssetLocation;', '''	fn ours(network: NetworkId) -> Option<super::NetworkId> {
		super::NetworkId::try_from(network).ok()
	}

'''))
q('y-l-loop', body(LOC, CONV, '''
			let (parents, junctions) = value.unpack();
			let mut network = None;
			let mut rest = junctions;
			if parents == 2 {
				let [GlobalConsensus(n), tail @ ..] = junctions else { return None };
				network = Some(super::NetworkId::try_from(*n).ok()?);
				rest = tail;
			}
			let para = match rest {
				[Parachain(id), PalletInstance(pallet), GeneralIndex(index)] => Some(Para {
					id: u16::try_from(*id).ok()?,
					pallet: *pallet,
					index: u32::try_from(*index).ok()?,
				}),
				_ => None,
			};
			match (parents, network, para, rest) {
				(0, None, None, [PalletInstance(13), GeneralIndex(index)]) => Some(FungibleAssetLocation::Here(u32::try_from(*index).ok()?)),
				(1, None, Some(para), _) => Some(FungibleAssetLocation::Sibling(para)),
				(2, Some(network), None, []) => Some(FungibleAssetLocation::External { network, child: None }),
				(2, Some(network), Some(para), _) => Some(FungibleAssetLocation::External { network, child: Some(para) }),
				_ => None,
			}
		'''))
q('y-l-back-parts', body(LOC, BACK, '''
			let (parents, interior): (u8, xcm::latest::Junctions) = match *value {
				FungibleAssetLocation::Here(index) => (0, [PalletInstance(13), GeneralIndex(index.into())].into()),
				FungibleAssetLocation::Sibling(Para { id, pallet, index }) => (1, [Parachain(id.into()), PalletInstance(pallet), GeneralIndex(index.into())].into()),
				FungibleAssetLocation::External { network, child: None } => (2, [GlobalConsensus(network.into())].into()),
				FungibleAssetLocation::External { network, child: Some(Para { id, pallet, index }) } => (
					2,
					[GlobalConsensus(network.into()), Parachain(id.into()), PalletInstance(pallet), GeneralIndex(index.into())].into(),
				),
			};
			Some(Location::new(parents, interior))
		'''))
b('y-b-bytes-field', ['C02'], (PID, '	prefix: [u8; 2],\n	index: u16,\n	block: u32,\n', '	bytes: [u8; 8],\n'),
  (PID, '		self.block\n', '		let [.., a, b, c, d] = self.bytes;\n		u32::from_le_bytes([a, b, c, d])\n'),
  (PID, '		self.index as u32\n', '		u32::from_le_bytes([self.bytes[2], self.bytes[3], 0, 0])\n'),
  body(PID, TOU, '\n		u64::from_le_bytes(id.bytes)\n	'), body(PID, FROMU, '\n		PaymentId { bytes: value.to_le_bytes() }\n	'),
  body(PID, TUP, '''
		debug_assert!(extra.len() >= 2);
		let mut bytes = [0; 8];
		bytes[..2].copy_from_slice(&extra[..2]);
		bytes[2..4].copy_from_slice(&(idx as u16).to_be_bytes());
		bytes[4..].copy_from_slice(&block.to_le_bytes());
		PaymentId { bytes }
	'''), (PID, '		debug_assert_eq!(8, core::mem::size_of::<Self>());\n		unsafe { core::slice::from_raw_parts((self as *const PaymentId) as *const u8, core::mem::size_of::<Self>()) }\n', '		&self.bytes\n'))
b('y-l-b-loop', ['C06'], body(LOC, CONV, '''
			let (parents, junctions) = value.unpack();
			let mut network = None;
			let mut rest = junctions;
			if parents == 2 {
				let [GlobalConsensus(n), tail @ ..] = junctions else { return None };
				network = Some(super::NetworkId::try_from(*n).ok()?);
				rest = tail;
			}
			let para = match rest {
				[Parachain(id), PalletInstance(pallet), GeneralIndex(index)] => Some(Para {
					id: u16::try_from(*id).ok()?,
					pallet: *pallet,
					index: u32::try_from(*index).ok()?,
				}),
				_ => None,
			};
			match (parents, network, para, rest) {
				(0, None, None, [PalletInstance(13), GeneralIndex(index)]) => Some(FungibleAssetLocation::Here(u32::try_from(*index).ok()?)),
				(1, None, Some(para), _) => Some(FungibleAssetLocation::Sibling(para)),
				(2, Some(network), child, _) => Some(FungibleAssetLocation::External { network, child }),
				_ => None,
			}
		'''))
