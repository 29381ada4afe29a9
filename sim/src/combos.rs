//! The (input, yield, return, capture) type
//! combinations; every type appears once in every role.
use crate::coro::Combo;
use crate::vals::*;

pub struct C00;
impl Combo for C00 {
    type I = T00;
    type Y = T03;
    type R = T05;
    type Cap = T01;
}
pub struct C01;
impl Combo for C01 {
    type I = T01;
    type Y = T10;
    type R = T16;
    type Cap = T14;
}
pub struct C02;
impl Combo for C02 {
    type I = T02;
    type Y = T17;
    type R = T27;
    type Cap = T27;
}
pub struct C03;
impl Combo for C03 {
    type I = T03;
    type Y = T24;
    type R = T38;
    type Cap = T40;
}
pub struct C04;
impl Combo for C04 {
    type I = T04;
    type Y = T31;
    type R = T49;
    type Cap = T00;
}
pub struct C05;
impl Combo for C05 {
    type I = T05;
    type Y = T38;
    type R = T07;
    type Cap = T13;
}
pub struct C06;
impl Combo for C06 {
    type I = T06;
    type Y = T45;
    type R = T18;
    type Cap = T26;
}
pub struct C07;
impl Combo for C07 {
    type I = T07;
    type Y = T52;
    type R = T29;
    type Cap = T39;
}
pub struct C08;
impl Combo for C08 {
    type I = T08;
    type Y = T06;
    type R = T40;
    type Cap = T52;
}
pub struct C09;
impl Combo for C09 {
    type I = T09;
    type Y = T13;
    type R = T51;
    type Cap = T12;
}
pub struct C10;
impl Combo for C10 {
    type I = T10;
    type Y = T20;
    type R = T09;
    type Cap = T25;
}
pub struct C11;
impl Combo for C11 {
    type I = T11;
    type Y = T27;
    type R = T20;
    type Cap = T38;
}
pub struct C12;
impl Combo for C12 {
    type I = T12;
    type Y = T34;
    type R = T31;
    type Cap = T51;
}
pub struct C13;
impl Combo for C13 {
    type I = T13;
    type Y = T41;
    type R = T42;
    type Cap = T11;
}
pub struct C14;
impl Combo for C14 {
    type I = T14;
    type Y = T48;
    type R = T00;
    type Cap = T24;
}
pub struct C15;
impl Combo for C15 {
    type I = T15;
    type Y = T02;
    type R = T11;
    type Cap = T37;
}
pub struct C16;
impl Combo for C16 {
    type I = T16;
    type Y = T09;
    type R = T22;
    type Cap = T50;
}
pub struct C17;
impl Combo for C17 {
    type I = T17;
    type Y = T16;
    type R = T33;
    type Cap = T10;
}
pub struct C18;
impl Combo for C18 {
    type I = T18;
    type Y = T23;
    type R = T44;
    type Cap = T23;
}
pub struct C19;
impl Combo for C19 {
    type I = T19;
    type Y = T30;
    type R = T02;
    type Cap = T36;
}
pub struct C20;
impl Combo for C20 {
    type I = T20;
    type Y = T37;
    type R = T13;
    type Cap = T49;
}
pub struct C21;
impl Combo for C21 {
    type I = T21;
    type Y = T44;
    type R = T24;
    type Cap = T09;
}
pub struct C22;
impl Combo for C22 {
    type I = T22;
    type Y = T51;
    type R = T35;
    type Cap = T22;
}
pub struct C23;
impl Combo for C23 {
    type I = T23;
    type Y = T05;
    type R = T46;
    type Cap = T35;
}
pub struct C24;
impl Combo for C24 {
    type I = T24;
    type Y = T12;
    type R = T04;
    type Cap = T33;
}
pub struct C25;
impl Combo for C25 {
    type I = T25;
    type Y = T19;
    type R = T15;
    type Cap = T08;
}
pub struct C26;
impl Combo for C26 {
    type I = T26;
    type Y = T26;
    type R = T26;
    type Cap = T21;
}
pub struct C27;
impl Combo for C27 {
    type I = T27;
    type Y = T33;
    type R = T37;
    type Cap = T34;
}
pub struct C28;
impl Combo for C28 {
    type I = T28;
    type Y = T40;
    type R = T48;
    type Cap = T47;
}
pub struct C29;
impl Combo for C29 {
    type I = T29;
    type Y = T47;
    type R = T06;
    type Cap = T07;
}
pub struct C30;
impl Combo for C30 {
    type I = T30;
    type Y = T01;
    type R = T17;
    type Cap = T20;
}
pub struct C31;
impl Combo for C31 {
    type I = T31;
    type Y = T08;
    type R = T28;
    type Cap = T33;
}
pub struct C32;
impl Combo for C32 {
    type I = T32;
    type Y = T15;
    type R = T39;
    type Cap = T41;
}
pub struct C33;
impl Combo for C33 {
    type I = T33;
    type Y = T22;
    type R = T50;
    type Cap = T06;
}
pub struct C34;
impl Combo for C34 {
    type I = T34;
    type Y = T29;
    type R = T08;
    type Cap = T19;
}
pub struct C35;
impl Combo for C35 {
    type I = T35;
    type Y = T36;
    type R = T19;
    type Cap = T32;
}
pub struct C36;
impl Combo for C36 {
    type I = T36;
    type Y = T43;
    type R = T30;
    type Cap = T45;
}
pub struct C37;
impl Combo for C37 {
    type I = T37;
    type Y = T50;
    type R = T41;
    type Cap = T05;
}
pub struct C38;
impl Combo for C38 {
    type I = T38;
    type Y = T04;
    type R = T52;
    type Cap = T18;
}
pub struct C39;
impl Combo for C39 {
    type I = T39;
    type Y = T11;
    type R = T10;
    type Cap = T31;
}
pub struct C40;
impl Combo for C40 {
    type I = T40;
    type Y = T18;
    type R = T21;
    type Cap = T44;
}
pub struct C41;
impl Combo for C41 {
    type I = T41;
    type Y = T25;
    type R = T32;
    type Cap = T04;
}
pub struct C42;
impl Combo for C42 {
    type I = T42;
    type Y = T32;
    type R = T43;
    type Cap = T17;
}
pub struct C43;
impl Combo for C43 {
    type I = T43;
    type Y = T39;
    type R = T01;
    type Cap = T30;
}
pub struct C44;
impl Combo for C44 {
    type I = T44;
    type Y = T46;
    type R = T12;
    type Cap = T43;
}
pub struct C45;
impl Combo for C45 {
    type I = T45;
    type Y = T00;
    type R = T23;
    type Cap = T03;
}
pub struct C46;
impl Combo for C46 {
    type I = T46;
    type Y = T07;
    type R = T34;
    type Cap = T16;
}
pub struct C47;
impl Combo for C47 {
    type I = T47;
    type Y = T14;
    type R = T45;
    type Cap = T29;
}
pub struct C48;
impl Combo for C48 {
    type I = T48;
    type Y = T21;
    type R = T03;
    type Cap = T42;
}
pub struct C49;
impl Combo for C49 {
    type I = T49;
    type Y = T28;
    type R = T14;
    type Cap = T02;
}
pub struct C50;
impl Combo for C50 {
    type I = T50;
    type Y = T35;
    type R = T25;
    type Cap = T15;
}
pub struct C51;
impl Combo for C51 {
    type I = T51;
    type Y = T42;
    type R = T36;
    type Cap = T28;
}
pub struct C52;
impl Combo for C52 {
    type I = T52;
    type Y = T49;
    type R = T47;
    type Cap = T41;
}
pub const NCOMBOS: u32 = 53;
#[macro_export]
macro_rules! with_combo {
    ($k:expr, $C:ident => $e:expr) => {
        match $k {
            0 => {
                type $C = $crate::combos::C00;
                $e
            }
            1 => {
                type $C = $crate::combos::C01;
                $e
            }
            2 => {
                type $C = $crate::combos::C02;
                $e
            }
            3 => {
                type $C = $crate::combos::C03;
                $e
            }
            4 => {
                type $C = $crate::combos::C04;
                $e
            }
            5 => {
                type $C = $crate::combos::C05;
                $e
            }
            6 => {
                type $C = $crate::combos::C06;
                $e
            }
            7 => {
                type $C = $crate::combos::C07;
                $e
            }
            8 => {
                type $C = $crate::combos::C08;
                $e
            }
            9 => {
                type $C = $crate::combos::C09;
                $e
            }
            10 => {
                type $C = $crate::combos::C10;
                $e
            }
            11 => {
                type $C = $crate::combos::C11;
                $e
            }
            12 => {
                type $C = $crate::combos::C12;
                $e
            }
            13 => {
                type $C = $crate::combos::C13;
                $e
            }
            14 => {
                type $C = $crate::combos::C14;
                $e
            }
            15 => {
                type $C = $crate::combos::C15;
                $e
            }
            16 => {
                type $C = $crate::combos::C16;
                $e
            }
            17 => {
                type $C = $crate::combos::C17;
                $e
            }
            18 => {
                type $C = $crate::combos::C18;
                $e
            }
            19 => {
                type $C = $crate::combos::C19;
                $e
            }
            20 => {
                type $C = $crate::combos::C20;
                $e
            }
            21 => {
                type $C = $crate::combos::C21;
                $e
            }
            22 => {
                type $C = $crate::combos::C22;
                $e
            }
            23 => {
                type $C = $crate::combos::C23;
                $e
            }
            24 => {
                type $C = $crate::combos::C24;
                $e
            }
            25 => {
                type $C = $crate::combos::C25;
                $e
            }
            26 => {
                type $C = $crate::combos::C26;
                $e
            }
            27 => {
                type $C = $crate::combos::C27;
                $e
            }
            28 => {
                type $C = $crate::combos::C28;
                $e
            }
            29 => {
                type $C = $crate::combos::C29;
                $e
            }
            30 => {
                type $C = $crate::combos::C30;
                $e
            }
            31 => {
                type $C = $crate::combos::C31;
                $e
            }
            32 => {
                type $C = $crate::combos::C32;
                $e
            }
            33 => {
                type $C = $crate::combos::C33;
                $e
            }
            34 => {
                type $C = $crate::combos::C34;
                $e
            }
            35 => {
                type $C = $crate::combos::C35;
                $e
            }
            36 => {
                type $C = $crate::combos::C36;
                $e
            }
            37 => {
                type $C = $crate::combos::C37;
                $e
            }
            38 => {
                type $C = $crate::combos::C38;
                $e
            }
            39 => {
                type $C = $crate::combos::C39;
                $e
            }
            40 => {
                type $C = $crate::combos::C40;
                $e
            }
            41 => {
                type $C = $crate::combos::C41;
                $e
            }
            42 => {
                type $C = $crate::combos::C42;
                $e
            }
            43 => {
                type $C = $crate::combos::C43;
                $e
            }
            44 => {
                type $C = $crate::combos::C44;
                $e
            }
            45 => {
                type $C = $crate::combos::C45;
                $e
            }
            46 => {
                type $C = $crate::combos::C46;
                $e
            }
            47 => {
                type $C = $crate::combos::C47;
                $e
            }
            48 => {
                type $C = $crate::combos::C48;
                $e
            }
            49 => {
                type $C = $crate::combos::C49;
                $e
            }
            50 => {
                type $C = $crate::combos::C50;
                $e
            }
            51 => {
                type $C = $crate::combos::C51;
                $e
            }
            52 => {
                type $C = $crate::combos::C52;
                $e
            }
            _ => unreachable!(),
        }
    };
}
