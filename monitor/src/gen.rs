//! Value generators: realistic, boundary and hostile inputs.
use crate::cal;
use crate::core::Rng;
use chrono::{Datelike, NaiveDate as D};

impl Rng {
    /// Rate strictly above `lo` (>= -1)
    pub fn rate(&mut self, lo: f64, hi: f64) -> f64 {
        loop {
            let r = match self.below(12) {
                0 => 0.0,
                1 => self.sign() * self.log(1e-12, 1e-3),
                2 => self.pick(&[0.1, 0.05, 0.005, 0.08, 0.01, 1.0, 0.25, 0.06, 0.12, -0.05, 0.03, -0.5]),
                3 => self.uni(-0.3, 0.0),
                4 => self.uni(lo, 0.0),
                5 => self.uni(0.0, hi),
                6 => self.uni(0.3, 1.5),
                7 => (self.uni(-0.1, 0.3) * 1000.0).round() / 1000.0,
                _ => self.uni(0.0, 0.3),
            };
            if r > lo && r <= hi {
                return r;
            }
        }
    }
    pub fn periods(&mut self) -> f64 {
        match self.below(12) {
            0 => 0.0,
            11 => {
                let x = self.sign() * self.log(60.0, 1e5);
                if self.chance(0.5) { x } else { x.round() }
            }
            1 => 1.0,
            2 | 3 => self.int(1, 60) as f64,
            4 => self.uni(-40.0, 0.0),
            5 => -self.int(1, 30) as f64,
            6 => self.int(60, 400) as f64,
            7 => self.uni(0.0, 1.0),
            8 => self.int(1, 400) as f64 / self.pick(&[2.0, 4.0, 12.0, 365.0]),
            9 => self.sign() * self.log(1e-9, 1e-2),
            _ => self.uni(0.0, 60.0),
        }
    }
    pub fn mfreq(&mut self) -> f64 {
        match self.below(8) {
            0 => 1.0,
            1 => 12.0,
            2 => self.pick(&[24.0, 26.0, 52.0, 250.0, 252.0, 360.0, 365.0, 365.25, 365.2425, 366.0]),
            4 if self.chance(0.3) => self.log(40.0, 1000.0),
            3 => self.uni(0.02, 1.0),
            4 => self.uni(1.0, 40.0),
            5 => self.pick(&[1.0 / 3.0, 0.5, 0.25, 2.5, 10.5, 1000.0, 8760.0, 525_600.0]),
            _ => self.pick(&[1.0, 2.0, 3.0, 4.0, 6.0, 12.0, 52.0, 365.0]),
        }
    }
    /// now and then a length far beyond the usual ones (8 and 16 bit counts, blocks, buffers)
    pub fn very_long(&mut self, p: f64, top: i64) -> Option<i64> {
        if self.chance(p) {
            let n = self.log(200.0, top as f64 + 0.5) as i64;
            // just around the limits of small integers
            return Some(if self.chance(0.3) { self.pick(&[255, 256, 257, 1024, 4096, 32_767, 32_768, 65_535, 65_536, 65_537]).min(top) } else { n });
        }
        None
    }
    /// now and then numbers that have to do with one another: repeated, reversed, cancelling, in order
    pub fn coincide(&mut self, p: f64, v: &mut [f64], keep_sign: bool) -> bool {
        let n = v.len();
        if n < 2 || !self.chance(p) {
            return false;
        }
        let old = v.to_vec();
        match self.below(9) {
            // one turns back the one before it, or repeats it
            0 | 1 => {
                let (every, s) = (self.chance(0.3), if self.chance(0.6) { -1.0 } else { 1.0 });
                let at = self.below(n - 1) + 1;
                (1..n).filter(|i| *i == at || every).for_each(|i| v[i] = s * v[i - 1]);
            }
            2 => {
                let (a, b) = (self.below(n), self.below(n));
                v[b] = v[a] * self.sign();
            }
            3 => v.reverse(),
            // the same from both ends
            4 => (0..n / 2).for_each(|i| v[n - 1 - i] = v[i]),
            5 => v[n - 1] = -v[..n - 1].iter().sum::<f64>(),
            6 => {
                let b = self.chance(0.5);
                v.sort_by(|x, y| if b { x.total_cmp(y) } else { y.total_cmp(x) });
            }
            7 => v.iter_mut().for_each(|x| *x = x.round()),
            // a single one left
            _ => {
                let a = self.below(n);
                (0..n).filter(|i| *i != a).for_each(|i| v[i] = 0.0);
            }
        }
        if keep_sign {
            (0..n).for_each(|i| v[i] = if old[i] == 0.0 { 0.0 } else { v[i].abs() * old[i].signum() });
        }
        true
    }
    pub fn ifreq(&mut self) -> i64 {
        self.pick(&[1, 1, 2, 2, 2, 3, 4, 4, 6, 12, 12, 24, 26, 52, 360, 365])
    }
    /// Amount of either sign; zero sometimes
    pub fn amount(&mut self) -> f64 {
        match self.below(12) {
            0 => 0.0,
            1 => self.sign() * self.log(1e-3, 1.0),
            2 => self.sign() * self.log(1e6, 1e13),
            10 => self.sign() * self.log(1e-12, 1e-3),
            11 if self.chance(0.3) => self.sign() * self.log(1e13, 1e18),
            3 => self.sign() * self.pick(&[1.0, 100.0, 1000.0, 1e6, 1e9, 0.01]),
            4 => self.sign() * self.int(1, 1_000_000) as f64,
            _ => self.sign() * self.log(0.1, 1e6),
        }
    }
    pub fn positive(&mut self) -> f64 {
        loop {
            let a = self.amount().abs();
            if a > 0.0 {
                return a;
            }
        }
    }
    pub fn amount_nz(&mut self) -> f64 {
        self.sign() * self.positive()
    }
    pub fn year(&mut self) -> i64 {
        match self.below(10) {
            0 => self.pick(&[1600, 1700, 1800, 1900, 2000, 2100, 2200, 2300, 2400, 0, 400, -400, 4, 1582]),
            1 => self.int(-9999, 9999),
            2 => self.int(1700, 2300),
            3 => 4 * self.int(470, 530),
            4 => self.pick(&[1896, 1899, 1900, 1901, 1904, 1999, 2000, 2001, 2019, 2020, 2021, 2096, 2099, 2100, 2101, 2104]),
            _ => self.int(1950, 2080),
        }
    }
    pub fn date_in(&mut self, y: i64) -> D {
        match self.below(12) {
            0 => cal::date(y, 1, 1),
            1 => cal::date(y, 12, 31),
            2 => cal::date(y, 2, cal::mlen(y, 2)),
            3 => cal::date(y, 2, self.int(27, 28)),
            4 | 5 => {
                let m = self.int(1, 12);
                cal::date(y, m, cal::mlen(y, m))
            }
            6 => {
                let m = self.int(1, 12);
                cal::date(y, m, cal::mlen(y, m) - self.int(0, 3))
            }
            7 => cal::date(y, self.int(1, 12), 1),
            _ => {
                let m = self.int(1, 12);
                cal::date(y, m, self.int(1, cal::mlen(y, m)))
            }
        }
    }
    pub fn date(&mut self) -> D {
        let y = self.year();
        self.date_in(y)
    }
    /// Date mostly in a modern window
    pub fn mdate(&mut self) -> D {
        let y = if self.chance(0.06) { self.int(1200, 2900) } else { self.int(1900, 2110) };
        self.date_in(y)
    }
    /// A second date: same day, neighbouring, same year, near or anywhere
    pub fn date_near(&mut self, a: D) -> D {
        let y = a.year() as i64;
        match self.below(8) {
            0 => a,
            // the same day of another month or year, or the same day of the year
            2 | 6 if self.chance(0.25) => {
                let k = self.pick(&[1, 3, 6, 12, 12, 24, 36, 48, 120, 1200]) * self.sign() as i64;
                let t = y * 12 + a.month() as i64 - 1 + k;
                let (y, m) = (t.div_euclid(12), t.rem_euclid(12) + 1);
                cal::date(y, m, (a.day() as i64).min(cal::mlen(y, m)))
            }
            1 => {
                let n = self.int(-5, 5);
                a + chrono::Duration::days(n)
            }
            2 => self.date_in(y),
            3 => {
                let k = y + self.int(-1, 1);
                self.date_in(k)
            }
            4 => self.date(),
            5 => {
                let n = self.int(-800, 800);
                a + chrono::Duration::days(n)
            }
            _ => {
                let k = y + self.int(-40, 40);
                self.date_in(k)
            }
        }
    }
}
