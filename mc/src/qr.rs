//! Strict QR code reader (ISO/IEC 18004, Model 2), independent of the library used by the program. Reads perfect
//! pictures only: any error in function patterns, format information, error correction or padding is reported.

const EC_PER_BLOCK: [[u8; 40]; 4] = [
    [7, 10, 15, 20, 26, 18, 20, 24, 30, 18, 20, 24, 26, 30, 22, 24, 28, 30, 28, 28, 28, 28, 30, 30, 26, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
    [10, 16, 26, 18, 24, 16, 18, 22, 22, 26, 30, 22, 22, 24, 24, 28, 28, 26, 26, 26, 26, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28],
    [13, 22, 18, 26, 18, 24, 18, 22, 20, 24, 28, 26, 24, 20, 30, 24, 28, 28, 26, 30, 28, 30, 30, 30, 30, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
    [17, 28, 22, 16, 22, 28, 26, 26, 24, 28, 24, 28, 22, 24, 24, 30, 28, 28, 26, 28, 30, 24, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
];
const BLOCKS: [[u8; 40]; 4] = [
    [1, 1, 1, 1, 1, 2, 2, 2, 2, 4, 4, 4, 4, 4, 6, 6, 6, 6, 7, 8, 8, 9, 9, 10, 12, 12, 12, 13, 14, 15, 16, 17, 18, 19, 19, 20, 21, 22, 24, 25],
    [1, 1, 1, 2, 2, 4, 4, 4, 5, 5, 5, 8, 9, 9, 10, 10, 11, 13, 14, 16, 17, 17, 18, 20, 21, 23, 25, 26, 28, 29, 31, 33, 35, 37, 38, 40, 43, 45, 47, 49],
    [1, 1, 2, 2, 4, 4, 6, 6, 8, 8, 8, 10, 12, 16, 12, 17, 16, 18, 21, 20, 23, 23, 25, 27, 29, 34, 34, 35, 38, 40, 43, 45, 48, 51, 53, 56, 59, 62, 65, 68],
    [1, 1, 2, 4, 4, 4, 5, 6, 8, 8, 11, 11, 16, 16, 18, 16, 19, 21, 25, 25, 25, 34, 30, 32, 35, 37, 40, 42, 45, 48, 51, 54, 57, 60, 63, 66, 70, 74, 77, 81],
];

pub struct Code {
    pub version: usize,
    pub level: usize,
    pub mask: u8,
    pub text: Vec<u8>,
    pub modes: Vec<u8>,
}

fn gf_mul(mut a: u32, mut b: u32) -> u32 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a <<= 1;
        if a & 0x100 != 0 {
            a ^= 0x11d;
        }
        b >>= 1;
    }
    r
}

fn alignment(version: usize) -> Vec<usize> {
    if version == 1 {
        return vec![];
    }
    let size = version * 4 + 17;
    let count = version / 7 + 2;
    let step = if version == 32 { 26 } else { (version * 4 + count * 2 + 1) / (count * 2 - 2) * 2 };
    let mut v: Vec<usize> = (0..count - 1).map(|i| size - 7 - i * step).collect();
    v.push(6);
    v
}

fn masked(mask: u8, x: usize, y: usize) -> bool {
    (match mask {
        0 => (x + y) % 2,
        1 => y % 2,
        2 => x % 3,
        3 => (x + y) % 3,
        4 => (x / 3 + y / 2) % 2,
        5 => x * y % 2 + x * y % 3,
        6 => (x * y % 2 + x * y % 3) % 2,
        _ => ((x + y) % 2 + x * y % 3) % 2,
    }) == 0
}

/// `m[y][x]`: dark modules.
pub fn read(m: &[Vec<bool>]) -> Result<Code, String> {
    let size = m.len();
    if size < 21 || size > 177 || (size - 17) % 4 != 0 || m.iter().any(|r| r.len() != size) {
        return Err(format!("{} rows of {:?} modules are no QR code", size, m.iter().map(|r| r.len()).collect::<std::collections::BTreeSet<_>>()));
    }
    let version = (size - 17) / 4;
    let mut function = vec![vec![false; size]; size];
    let mut expect = |x: usize, y: usize, dark: bool| -> Result<(), String> {
        function[y][x] = true;
        if m[y][x] != dark {
            return Err(format!("module at {},{} should be {}", x, y, if dark { "dark" } else { "light" }));
        }
        Ok(())
    };
    // Finder patterns with separators
    for (cx, cy) in [(3i32, 3i32), (size as i32 - 4, 3), (3, size as i32 - 4)] {
        for dy in -4..=4i32 {
            for dx in -4..=4i32 {
                let (x, y) = (cx + dx, cy + dy);
                if x >= 0 && y >= 0 && (x as usize) < size && (y as usize) < size {
                    let d = dx.abs().max(dy.abs());
                    expect(x as usize, y as usize, d != 2 && d != 4)?;
                }
            }
        }
    }
    // Timing
    for i in 8..size - 8 {
        expect(i, 6, i % 2 == 0)?;
        expect(6, i, i % 2 == 0)?;
    }
    // Alignment
    let pos = alignment(version);
    for &cx in &pos {
        for &cy in &pos {
            if (cx == 6 && cy == 6) || (cx == 6 && cy == size - 7) || (cx == size - 7 && cy == 6) {
                continue;
            }
            for dy in 0..5 {
                for dx in 0..5 {
                    let d = (dx as i32 - 2).abs().max((dy as i32 - 2).abs());
                    expect(cx + dx - 2, cy + dy - 2, d != 1)?;
                }
            }
        }
    }
    // Dark module
    expect(8, size - 8, true)?;
    // Format information, two copies
    let bit = |x: usize, y: usize| m[y][x] as u32;
    let mut first = 0;
    let mut second = 0;
    let mut a: Vec<(usize, usize)> = (0..6).map(|i| (8, i)).collect();
    a.extend([(8, 7), (8, 8), (7, 8)]);
    a.extend((0..6).rev().map(|i| (i, 8)));
    let mut b: Vec<(usize, usize)> = (0..8).map(|i| (size - 1 - i, 8)).collect();
    b.extend((0..7).map(|i| (8, size - 7 + i)));
    for (i, (&(ax, ay), &(bx, by))) in a.iter().zip(&b).enumerate() {
        first |= bit(ax, ay) << i;
        second |= bit(bx, by) << i;
        function[ay][ax] = true;
        function[by][bx] = true;
    }
    if first != second {
        return Err("copies of format information differ".into());
    }
    let format = first ^ 0x5412;
    let data = format >> 10;
    let mut rem = data;
    for _ in 0..10 {
        rem = (rem << 1) ^ ((rem >> 9) * 0x537);
    }
    if (data << 10 | rem) != format {
        return Err("format information is wrong".into());
    }
    let level = [1, 0, 3, 2][(data >> 3) as usize];
    let mask = (data & 7) as u8;
    // Version information
    if version >= 7 {
        let mut rem = version as u32;
        for _ in 0..12 {
            rem = (rem << 1) ^ ((rem >> 11) * 0x1f25);
        }
        let bits = (version as u32) << 12 | rem;
        for i in 0..18 {
            let (x, y) = (size - 11 + i % 3, i / 3);
            let dark = bits >> i & 1 == 1;
            for (x, y) in [(x, y), (y, x)] {
                function[y][x] = true;
                if m[y][x] != dark {
                    return Err("version information is wrong".into());
                }
            }
        }
    }
    // Codewords
    let mut bits = Vec::new();
    let mut right = size as i32 - 1;
    let mut upwards = true;
    while right > 0 {
        if right == 6 {
            right = 5;
        }
        for i in 0..size {
            let y = if upwards { size - 1 - i } else { i };
            for x in [right as usize, right as usize - 1] {
                if !function[y][x] {
                    bits.push(m[y][x] != masked(mask, x, y));
                }
            }
        }
        upwards = !upwards;
        right -= 2;
    }
    let total = bits.len() / 8;
    if bits[total * 8..].iter().any(|&b| b) {
        return Err("remainder bits are set".into());
    }
    let raw: Vec<u8> = bits.chunks(8).filter(|c| c.len() == 8).map(|c| c.iter().fold(0, |a, &b| a << 1 | b as u8)).collect();
    // Blocks
    let blocks = BLOCKS[level][version - 1] as usize;
    let ec = EC_PER_BLOCK[level][version - 1] as usize;
    let short = total / blocks;
    let long_blocks = total % blocks;
    let short_data = short - ec;
    let mut block: Vec<Vec<u8>> = vec![vec![]; blocks];
    let mut it = raw.iter();
    for i in 0..=short_data {
        for (k, b) in block.iter_mut().enumerate() {
            if i < short_data || k >= blocks - long_blocks {
                b.push(*it.next().unwrap());
            }
        }
    }
    let mut data: Vec<u8> = Vec::new();
    for b in &block {
        data.extend(b);
    }
    for _ in 0..ec {
        for b in block.iter_mut() {
            b.push(*it.next().unwrap());
        }
    }
    for (k, b) in block.iter().enumerate() {
        let mut root = 1;
        for _ in 0..ec {
            let syndrome = b.iter().fold(0, |a, &c| gf_mul(a, root) ^ c as u32);
            if syndrome != 0 {
                return Err(format!("error correction of block {} is wrong", k));
            }
            root = gf_mul(root, 2);
        }
    }
    // Segments
    let data_bits: Vec<bool> = data.iter().flat_map(|b| (0..8).rev().map(move |i| b >> i & 1 == 1)).collect();
    let mut at = 0;
    let mut take = |n: usize| -> Result<u32, String> {
        if at + n > data_bits.len() {
            return Err("data end early".into());
        }
        let v = data_bits[at..at + n].iter().fold(0, |a, &b| a << 1 | b as u32);
        at += n;
        Ok(v)
    };
    let mut text = Vec::new();
    let mut modes = Vec::new();
    let group = if version < 10 { 0 } else if version < 27 { 1 } else { 2 };
    const ALNUM: &[u8] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:";
    loop {
        // A full symbol has no or a shortened terminator.
        let Ok(mode) = take(4) else { break };
        if mode == 0 {
            break;
        }
        modes.push(mode as u8);
        match mode {
            1 => {
                let mut n = take([10, 12, 14][group])? as usize;
                while n > 0 {
                    let k = n.min(3);
                    let v = take([0, 4, 7, 10][k])?;
                    if v >= [1, 10, 100, 1000][k] {
                        return Err("invalid digits".into());
                    }
                    text.extend(format!("{:0w$}", v, w = k).bytes());
                    n -= k;
                }
            }
            2 => {
                let mut n = take([9, 11, 13][group])? as usize;
                while n > 0 {
                    let k = n.min(2);
                    let v = take([0, 6, 11][k])? as usize;
                    if k == 2 {
                        text.push(*ALNUM.get(v / 45).ok_or("invalid character")?);
                    }
                    text.push(if k == 2 { ALNUM[v % 45] } else { *ALNUM.get(v).ok_or("invalid character")? });
                    n -= k;
                }
            }
            4 => {
                let n = take([8, 16, 16][group])?;
                for _ in 0..n {
                    text.push(take(8)? as u8);
                }
            }
            other => return Err(format!("unexpected mode {}", other)),
        }
    }
    // Padding
    while at % 8 != 0 {
        if data_bits[at] {
            return Err("padding bits are set".into());
        }
        at += 1;
    }
    for (i, b) in data[at / 8..].iter().enumerate() {
        if *b != [0xec, 0x11][i % 2] {
            return Err("padding is wrong".into());
        }
    }
    Ok(Code { version, level, mask, text, modes })
}

/// Takes the picture drawn with half blocks apart, two rows of modules per line.
pub fn modules(picture: &str) -> Result<Vec<Vec<bool>>, String> {
    let body = picture.strip_suffix('\n').ok_or("last line isn't complete")?;
    let mut rows: Vec<Vec<bool>> = Vec::new();
    let lines: Vec<&str> = body.split('\n').collect();
    for line in &lines {
        let (mut upper, mut lower) = (Vec::new(), Vec::new());
        for c in line.chars() {
            let (u, l) = match c {
                ' ' => (false, false),
                '\u{2580}' => (true, false),
                '\u{2584}' => (false, true),
                '\u{2588}' => (true, true),
                c => return Err(format!("unexpected character {:?}", c)),
            };
            upper.push(u);
            lower.push(l);
        }
        rows.push(upper);
        rows.push(lower);
    }
    // The number of rows is odd, the very last one is no part of the code.
    if rows.pop().map_or(true, |r| r.iter().any(|&d| d)) {
        return Err("modules below the last row".into());
    }
    Ok(rows)
}
