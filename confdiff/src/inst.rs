//! The instantiations compared.
use crate::gen::Op;
use crate::run::{run, Ix, Obs, Px};
use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures};

pub struct Entry {
    pub index: &'static str,
    pub bits: u32,
    pub p: char,
    pub m: usize,
    pub j: bool,
    pub small: bool,
    pub f: fn(&[Op]) -> Obs,
}
impl Entry {
    pub fn name(&self) -> String {
        format!("{}/{}/{}/{}", self.index, self.p, self.m, if self.j { "J" } else { "-" })
    }
}
fn one<I: Ix, P: Px<I, J, M>, const J: bool, const M: usize>(small: bool) -> Entry {
    Entry { index: I::NAME, bits: I::BITS, p: P::C, m: M, j: J, small, f: run::<I, P, J, M> }
}
macro_rules! all_p {
    ($v:ident $s:literal $i:ty, $j:literal, $($m:literal)*) => {
        $(
            $v.push(one::<$i, NoFeatures, $j, $m>($s));
            $v.push(one::<$i, AllowCow, $j, $m>($s));
            $v.push(one::<$i, AllowSliceRefs, $j, $m>($s));
        )*
    };
}
#[allow(unused_macros)]
macro_rules! each {
    ($v:ident $p:ident $j:literal $($m:literal)*) => { $( $v.push(one::<usize, $p, $j, $m>(false)); )* };
}

pub fn all() -> Vec<Entry> {
    let mut v = Vec::new();
    // the small set, present in every build
    all_p!(v true usize, true, 1 3 5 127);
    all_p!(v true usize, false, 5);
    all_p!(v true u8, true, 2);
    all_p!(v true u128, true, 3);
    all_p!(v true u128, false, 3);
    #[cfg(feature = "full")]
    {
        all_p!(v false usize, true, 2 4 6 7 8 15 16 31 32 63 64 100 126);
        all_p!(v false usize, false, 1 3 126 127);
        all_p!(v false u8, true, 1 3);
        all_p!(v false u8, false, 2);
        all_p!(v false u16, true, 1 3);
        all_p!(v false u16, false, 2);
        all_p!(v false u32, true, 1 3);
        all_p!(v false u32, false, 2);
        all_p!(v false u64, true, 1 3);
        all_p!(v false u64, false, 2);
        all_p!(v false u128, true, 1);
        all_p!(v false u128, false, 2);
        all_p!(v false u8, true, 127);
        each!(v NoFeatures false 12 18 24 30 36 42 48 54 60 66 72 78 84 90 96 102 108 114 120);
        each!(v NoFeatures true 9 21 27 33 39 45 51 57 69 75 81 87 93 99 105 111 117 123);
        each!(v AllowCow false 13 19 25 37 43 49 55 61 67 73 79 85 91 97 103 109 115 121);
        each!(v AllowCow true 10 22 28 34 40 46 52 58 70 76 82 88 94 106 112 118 124);
        each!(v AllowSliceRefs false 14 20 26 38 44 50 56 62 68 74 80 86 92 98 104 110 116 122);
        each!(v AllowSliceRefs true 11 17 23 29 35 41 47 53 59 65 71 77 83 89 95 101 107 113 119 125);
    }
    #[cfg(feature = "allm")]
    {
        each!(v NoFeatures false 9 10 11 13 14 17 19 20 21 22 23 25 26 27 28 29 33 34 35 37 38 39 40 41 43 44 45 46 47 49 50 51 52 53 55 56 57 58 59 61 62 65 67 68 69 70 71 73 74 75 76 77 79 80 81 82 83 85 86 87 88 89 91 92 93 94 95 97 98 99 101 103 104 105 106 107 109 110 111 112 113 115 116 117 118 119 121 122 123 124 125);
        each!(v NoFeatures true 10 11 12 13 14 17 18 19 20 22 23 24 25 26 28 29 30 34 35 36 37 38 40 41 42 43 44 46 47 48 49 50 52 53 54 55 56 58 59 60 61 62 65 66 67 68 70 71 72 73 74 76 77 78 79 80 82 83 84 85 86 88 89 90 91 92 94 95 96 97 98 101 102 103 104 106 107 108 109 110 112 113 114 115 116 118 119 120 121 122 124 125);
        each!(v AllowCow false 9 10 11 12 14 17 18 20 21 22 23 24 26 27 28 29 30 33 34 35 36 38 39 40 41 42 44 45 46 47 48 50 51 52 53 54 56 57 58 59 60 62 65 66 68 69 70 71 72 74 75 76 77 78 80 81 82 83 84 86 87 88 89 90 92 93 94 95 96 98 99 101 102 104 105 106 107 108 110 111 112 113 114 116 117 118 119 120 122 123 124 125);
        each!(v AllowCow true 9 11 12 13 14 17 18 19 20 21 23 24 25 26 27 29 30 33 35 36 37 38 39 41 42 43 44 45 47 48 49 50 51 53 54 55 56 57 59 60 61 62 65 66 67 68 69 71 72 73 74 75 77 78 79 80 81 83 84 85 86 87 89 90 91 92 93 95 96 97 98 99 101 102 103 104 105 107 108 109 110 111 113 114 115 116 117 119 120 121 122 123 125);
        each!(v AllowSliceRefs false 9 10 11 12 13 17 18 19 21 22 23 24 25 27 28 29 30 33 34 35 36 37 39 40 41 42 43 45 46 47 48 49 51 52 53 54 55 57 58 59 60 61 65 66 67 69 70 71 72 73 75 76 77 78 79 81 82 83 84 85 87 88 89 90 91 93 94 95 96 97 99 101 102 103 105 106 107 108 109 111 112 113 114 115 117 118 119 120 121 123 124 125);
        each!(v AllowSliceRefs true 9 10 12 13 14 18 19 20 21 22 24 25 26 27 28 30 33 34 36 37 38 39 40 42 43 44 45 46 48 49 50 51 52 54 55 56 57 58 60 61 62 66 67 68 69 70 72 73 74 75 76 78 79 80 81 82 84 85 86 87 88 90 91 92 93 94 96 97 98 99 102 103 104 105 106 108 109 110 111 112 114 115 116 117 118 120 121 122 123 124);
    }
    v
}
