//! SHA-256, double SHA-256 and c32check addresses, without dependencies.
const K: [u32; 64] = [
	0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5,
	0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
	0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
	0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
	0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
	0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
	0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
	0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
];

pub fn sha256(data: &[u8]) -> [u8; 32] {
	let mut h: [u32; 8] = [
		0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab,
		0x5be0cd19,
	];
	let mut m = data.to_vec();
	m.push(0x80);
	while m.len() % 64 != 56 {
		m.push(0);
	}
	m.extend((data.len() as u64 * 8).to_be_bytes());
	for block in m.chunks(64) {
		let mut w = [0u32; 64];
		for (i, c) in block.chunks(4).enumerate() {
			w[i] = u32::from_be_bytes(c.try_into().unwrap());
		}
		for i in 16..64 {
			let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
			let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
			w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
		}
		let mut v = h;
		for i in 0..64 {
			let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
			let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
			let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
			let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
			let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
			let t2 = s0.wrapping_add(maj);
			v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
		}
		for i in 0..8 {
			h[i] = h[i].wrapping_add(v[i]);
		}
	}
	let mut out = [0; 32];
	for i in 0..8 {
		out[4 * i..][..4].copy_from_slice(&h[i].to_be_bytes());
	}
	out
}

pub fn sha256d(data: &[u8]) -> [u8; 32] {
	sha256(&sha256(data))
}

const C32: &[u8] = b"0123456789ABCDEFGHJKMNPQRSTVWXYZ";

/// The version and hash of a Stacks address text.
pub fn c32_address(text: &str) -> Option<(u8, [u8; 20])> {
	let t = text.as_bytes();
	if t.len() < 6 || t[0] != b'S' {
		return None;
	}
	let val = |c: u8| C32.iter().position(|x| *x == c).map(|x| x as u32);
	let version = val(t[1])? as u8;
	let mut num = vec![0u8; 24];
	for c in &t[2..] {
		let mut carry = val(*c)?;
		for b in num.iter_mut().rev() {
			carry += u32::from(*b) * 32;
			*b = carry as u8;
			carry >>= 8;
		}
		if carry != 0 {
			return None;
		}
	}
	let mut pre = vec![version];
	pre.extend(&num[..20]);
	(sha256d(&pre)[..4] == num[20..]).then(|| (version, num[..20].try_into().unwrap()))
}
