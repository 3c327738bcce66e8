//! Every pair of colours in an attribute list, with an intensity or without.

use stylish::Formatter;

use crate::{doc::Node, model::St};

pub const N: u16 = 324;

/// The style of text within attribute list `n`.
pub fn model(n: u16, s: St) -> St {
    let (fg, bg) = ((n % 18) as u8, (n / 18) as u8);
    let or = |v: u8, old: u8| v.checked_sub(1).unwrap_or(old);
    St { fg: or(fg, s.fg), bg: or(bg, s.bg), int: or((fg + bg) % 4, s.int) }
}

pub fn render(n: u16, f: &mut Formatter<'_>, x: &Node) -> stylish::Result {
    match n {
        0 => f.write_fmt(stylish::format_args!("{:()s}", x)),
        1 => f.write_fmt(stylish::format_args!("{:(normal,fg=default)s}", x)),
        2 => f.write_fmt(stylish::format_args!("{:(fg=black,bold)s}", x)),
        3 => f.write_fmt(stylish::format_args!("{:(faint,fg=red)s}", x)),
        4 => f.write_fmt(stylish::format_args!("{:(fg=green)s}", x)),
        5 => f.write_fmt(stylish::format_args!("{:(fg=yellow,normal)s}", x)),
        6 => f.write_fmt(stylish::format_args!("{:(bold,fg=blue)s}", x)),
        7 => f.write_fmt(stylish::format_args!("{:(fg=magenta,faint,)s}", x)),
        8 => f.write_fmt(stylish::format_args!("{:(fg=cyan)s}", x)),
        9 => f.write_fmt(stylish::format_args!("{:(fg=white,normal)s}", x)),
        10 => f.write_fmt(stylish::format_args!("{:(fg=brightblack,bold)s}", x)),
        11 => f.write_fmt(stylish::format_args!("{:(faint,fg=brightred)s}", x)),
        12 => f.write_fmt(stylish::format_args!("{:(fg=brightgreen)s}", x)),
        13 => f.write_fmt(stylish::format_args!("{:(normal,fg=brightyellow)s}", x)),
        14 => f.write_fmt(stylish::format_args!("{:(fg=brightblue,bold,)s}", x)),
        15 => f.write_fmt(stylish::format_args!("{:(fg=brightmagenta,faint)s}", x)),
        16 => f.write_fmt(stylish::format_args!("{:(fg=brightcyan)s}", x)),
        17 => f.write_fmt(stylish::format_args!("{:(fg=brightwhite,normal)s}", x)),
        18 => f.write_fmt(stylish::format_args!("{:(normal,bg=default)s}", x)),
        19 => f.write_fmt(stylish::format_args!("{:(fg=default,bold,bg=default)s}", x)),
        20 => f.write_fmt(stylish::format_args!("{:(faint,fg=black,bg=default)s}", x)),
        21 => f.write_fmt(stylish::format_args!("{:(bg=default,fg=red,)s}", x)),
        22 => f.write_fmt(stylish::format_args!("{:(bg=default,normal,fg=green)s}", x)),
        23 => f.write_fmt(stylish::format_args!("{:(bold,fg=yellow,bg=default)s}", x)),
        24 => f.write_fmt(stylish::format_args!("{:(fg=blue,bg=default,faint)s}", x)),
        25 => f.write_fmt(stylish::format_args!("{:(fg=magenta,bg=default)s}", x)),
        26 => f.write_fmt(stylish::format_args!("{:(bg=default,fg=cyan,normal)s}", x)),
        27 => f.write_fmt(stylish::format_args!("{:(bold,bg=default,fg=white)s}", x)),
        28 => f.write_fmt(stylish::format_args!("{:(fg=brightblack,faint,bg=default,)s}", x)),
        29 => f.write_fmt(stylish::format_args!("{:(fg=brightred,bg=default)s}", x)),
        30 => f.write_fmt(stylish::format_args!("{:(fg=brightgreen,bg=default,normal)s}", x)),
        31 => f.write_fmt(stylish::format_args!("{:(bg=default,bold,fg=brightyellow)s}", x)),
        32 => f.write_fmt(stylish::format_args!("{:(faint,fg=brightblue,bg=default)s}", x)),
        33 => f.write_fmt(stylish::format_args!("{:(bg=default,fg=brightmagenta)s}", x)),
        34 => f.write_fmt(stylish::format_args!("{:(bg=default,normal,fg=brightcyan)s}", x)),
        35 => f.write_fmt(stylish::format_args!("{:(bg=default,fg=brightwhite,bold,)s}", x)),
        36 => f.write_fmt(stylish::format_args!("{:(bold,bg=black)s}", x)),
        37 => f.write_fmt(stylish::format_args!("{:(fg=default,faint,bg=black)s}", x)),
        38 => f.write_fmt(stylish::format_args!("{:(bg=black,fg=black)s}", x)),
        39 => f.write_fmt(stylish::format_args!("{:(normal,bg=black,fg=red)s}", x)),
        40 => f.write_fmt(stylish::format_args!("{:(bg=black,bold,fg=green)s}", x)),
        41 => f.write_fmt(stylish::format_args!("{:(faint,fg=yellow,bg=black)s}", x)),
        42 => f.write_fmt(stylish::format_args!("{:(fg=blue,bg=black,)s}", x)),
        43 => f.write_fmt(stylish::format_args!("{:(bg=black,normal,fg=magenta)s}", x)),
        44 => f.write_fmt(stylish::format_args!("{:(bold,fg=cyan,bg=black)s}", x)),
        45 => f.write_fmt(stylish::format_args!("{:(faint,bg=black,fg=white)s}", x)),
        46 => f.write_fmt(stylish::format_args!("{:(bg=black,fg=brightblack)s}", x)),
        47 => f.write_fmt(stylish::format_args!("{:(bg=black,fg=brightred,normal)s}", x)),
        48 => f.write_fmt(stylish::format_args!("{:(bold,bg=black,fg=brightgreen)s}", x)),
        49 => f.write_fmt(stylish::format_args!("{:(fg=brightyellow,faint,bg=black,)s}", x)),
        50 => f.write_fmt(stylish::format_args!("{:(fg=brightblue,bg=black)s}", x)),
        51 => f.write_fmt(stylish::format_args!("{:(fg=brightmagenta,bg=black,normal)s}", x)),
        52 => f.write_fmt(stylish::format_args!("{:(bg=black,bold,fg=brightcyan)s}", x)),
        53 => f.write_fmt(stylish::format_args!("{:(faint,fg=brightwhite,bg=black)s}", x)),
        54 => f.write_fmt(stylish::format_args!("{:(bg=red,faint)s}", x)),
        55 => f.write_fmt(stylish::format_args!("{:(fg=default,bg=red)s}", x)),
        56 => f.write_fmt(stylish::format_args!("{:(bg=red,fg=black,normal,)s}", x)),
        57 => f.write_fmt(stylish::format_args!("{:(bold,bg=red,fg=red)s}", x)),
        58 => f.write_fmt(stylish::format_args!("{:(fg=green,faint,bg=red)s}", x)),
        59 => f.write_fmt(stylish::format_args!("{:(fg=yellow,bg=red)s}", x)),
        60 => f.write_fmt(stylish::format_args!("{:(fg=blue,bg=red,normal)s}", x)),
        61 => f.write_fmt(stylish::format_args!("{:(bg=red,bold,fg=magenta)s}", x)),
        62 => f.write_fmt(stylish::format_args!("{:(faint,fg=cyan,bg=red)s}", x)),
        63 => f.write_fmt(stylish::format_args!("{:(bg=red,fg=white,)s}", x)),
        64 => f.write_fmt(stylish::format_args!("{:(bg=red,normal,fg=brightblack)s}", x)),
        65 => f.write_fmt(stylish::format_args!("{:(bg=red,fg=brightred,bold)s}", x)),
        66 => f.write_fmt(stylish::format_args!("{:(faint,bg=red,fg=brightgreen)s}", x)),
        67 => f.write_fmt(stylish::format_args!("{:(fg=brightyellow,bg=red)s}", x)),
        68 => f.write_fmt(stylish::format_args!("{:(bg=red,fg=brightblue,normal)s}", x)),
        69 => f.write_fmt(stylish::format_args!("{:(bold,bg=red,fg=brightmagenta)s}", x)),
        70 => f.write_fmt(stylish::format_args!("{:(bg=red,faint,fg=brightcyan,)s}", x)),
        71 => f.write_fmt(stylish::format_args!("{:(bg=red,fg=brightwhite)s}", x)),
        72 => f.write_fmt(stylish::format_args!("{:(bg=green)s}", x)),
        73 => f.write_fmt(stylish::format_args!("{:(bg=green,normal,fg=default)s}", x)),
        74 => f.write_fmt(stylish::format_args!("{:(bold,fg=black,bg=green)s}", x)),
        75 => f.write_fmt(stylish::format_args!("{:(faint,bg=green,fg=red)s}", x)),
        76 => f.write_fmt(stylish::format_args!("{:(bg=green,fg=green)s}", x)),
        77 => f.write_fmt(stylish::format_args!("{:(bg=green,fg=yellow,normal,)s}", x)),
        78 => f.write_fmt(stylish::format_args!("{:(bold,bg=green,fg=blue)s}", x)),
        79 => f.write_fmt(stylish::format_args!("{:(fg=magenta,faint,bg=green)s}", x)),
        80 => f.write_fmt(stylish::format_args!("{:(fg=cyan,bg=green)s}", x)),
        81 => f.write_fmt(stylish::format_args!("{:(fg=white,bg=green,normal)s}", x)),
        82 => f.write_fmt(stylish::format_args!("{:(bg=green,bold,fg=brightblack)s}", x)),
        83 => f.write_fmt(stylish::format_args!("{:(faint,fg=brightred,bg=green)s}", x)),
        84 => f.write_fmt(stylish::format_args!("{:(fg=brightgreen,bg=green,)s}", x)),
        85 => f.write_fmt(stylish::format_args!("{:(fg=brightyellow,normal,bg=green)s}", x)),
        86 => f.write_fmt(stylish::format_args!("{:(bg=green,fg=brightblue,bold)s}", x)),
        87 => f.write_fmt(stylish::format_args!("{:(faint,bg=green,fg=brightmagenta)s}", x)),
        88 => f.write_fmt(stylish::format_args!("{:(bg=green,fg=brightcyan)s}", x)),
        89 => f.write_fmt(stylish::format_args!("{:(bg=green,fg=brightwhite,normal)s}", x)),
        90 => f.write_fmt(stylish::format_args!("{:(bg=yellow,normal)s}", x)),
        91 => f.write_fmt(stylish::format_args!("{:(bg=yellow,bold,fg=default,)s}", x)),
        92 => f.write_fmt(stylish::format_args!("{:(faint,fg=black,bg=yellow)s}", x)),
        93 => f.write_fmt(stylish::format_args!("{:(bg=yellow,fg=red)s}", x)),
        94 => f.write_fmt(stylish::format_args!("{:(bg=yellow,normal,fg=green)s}", x)),
        95 => f.write_fmt(stylish::format_args!("{:(bg=yellow,fg=yellow,bold)s}", x)),
        96 => f.write_fmt(stylish::format_args!("{:(faint,bg=yellow,fg=blue)s}", x)),
        97 => f.write_fmt(stylish::format_args!("{:(fg=magenta,bg=yellow)s}", x)),
        98 => f.write_fmt(stylish::format_args!("{:(bg=yellow,fg=cyan,normal,)s}", x)),
        99 => f.write_fmt(stylish::format_args!("{:(bold,bg=yellow,fg=white)s}", x)),
        100 => f.write_fmt(stylish::format_args!("{:(bg=yellow,faint,fg=brightblack)s}", x)),
        101 => f.write_fmt(stylish::format_args!("{:(bg=yellow,fg=brightred)s}", x)),
        102 => f.write_fmt(stylish::format_args!("{:(fg=brightgreen,bg=yellow,normal)s}", x)),
        103 => f.write_fmt(stylish::format_args!("{:(bg=yellow,bold,fg=brightyellow)s}", x)),
        104 => f.write_fmt(stylish::format_args!("{:(faint,fg=brightblue,bg=yellow)s}", x)),
        105 => f.write_fmt(stylish::format_args!("{:(fg=brightmagenta,bg=yellow,)s}", x)),
        106 => f.write_fmt(stylish::format_args!("{:(fg=brightcyan,normal,bg=yellow)s}", x)),
        107 => f.write_fmt(stylish::format_args!("{:(bg=yellow,fg=brightwhite,bold)s}", x)),
        108 => f.write_fmt(stylish::format_args!("{:(bold,bg=blue)s}", x)),
        109 => f.write_fmt(stylish::format_args!("{:(fg=default,faint,bg=blue)s}", x)),
        110 => f.write_fmt(stylish::format_args!("{:(fg=black,bg=blue)s}", x)),
        111 => f.write_fmt(stylish::format_args!("{:(fg=red,bg=blue,normal)s}", x)),
        112 => f.write_fmt(stylish::format_args!("{:(bg=blue,bold,fg=green,)s}", x)),
        113 => f.write_fmt(stylish::format_args!("{:(faint,fg=yellow,bg=blue)s}", x)),
        114 => f.write_fmt(stylish::format_args!("{:(fg=blue,bg=blue)s}", x)),
        115 => f.write_fmt(stylish::format_args!("{:(fg=magenta,normal,bg=blue)s}", x)),
        116 => f.write_fmt(stylish::format_args!("{:(bg=blue,fg=cyan,bold)s}", x)),
        117 => f.write_fmt(stylish::format_args!("{:(faint,bg=blue,fg=white)s}", x)),
        118 => f.write_fmt(stylish::format_args!("{:(bg=blue,fg=brightblack)s}", x)),
        119 => f.write_fmt(stylish::format_args!("{:(bg=blue,fg=brightred,normal,)s}", x)),
        120 => f.write_fmt(stylish::format_args!("{:(fg=brightgreen,bg=blue,bold)s}", x)),
        121 => f.write_fmt(stylish::format_args!("{:(bg=blue,faint,fg=brightyellow)s}", x)),
        122 => f.write_fmt(stylish::format_args!("{:(fg=brightblue,bg=blue)s}", x)),
        123 => f.write_fmt(stylish::format_args!("{:(fg=brightmagenta,bg=blue,normal)s}", x)),
        124 => f.write_fmt(stylish::format_args!("{:(bg=blue,bold,fg=brightcyan)s}", x)),
        125 => f.write_fmt(stylish::format_args!("{:(bg=blue,fg=brightwhite,faint)s}", x)),
        126 => f.write_fmt(stylish::format_args!("{:(faint,bg=magenta,)s}", x)),
        127 => f.write_fmt(stylish::format_args!("{:(fg=default,bg=magenta)s}", x)),
        128 => f.write_fmt(stylish::format_args!("{:(bg=magenta,fg=black,normal)s}", x)),
        129 => f.write_fmt(stylish::format_args!("{:(bold,bg=magenta,fg=red)s}", x)),
        130 => f.write_fmt(stylish::format_args!("{:(bg=magenta,faint,fg=green)s}", x)),
        131 => f.write_fmt(stylish::format_args!("{:(bg=magenta,fg=yellow)s}", x)),
        132 => f.write_fmt(stylish::format_args!("{:(fg=blue,bg=magenta,normal)s}", x)),
        133 => f.write_fmt(stylish::format_args!("{:(bg=magenta,bold,fg=magenta,)s}", x)),
        134 => f.write_fmt(stylish::format_args!("{:(faint,fg=cyan,bg=magenta)s}", x)),
        135 => f.write_fmt(stylish::format_args!("{:(fg=white,bg=magenta)s}", x)),
        136 => f.write_fmt(stylish::format_args!("{:(fg=brightblack,normal,bg=magenta)s}", x)),
        137 => f.write_fmt(stylish::format_args!("{:(bg=magenta,fg=brightred,bold)s}", x)),
        138 => f.write_fmt(stylish::format_args!("{:(faint,bg=magenta,fg=brightgreen)s}", x)),
        139 => f.write_fmt(stylish::format_args!("{:(fg=brightyellow,bg=magenta)s}", x)),
        140 => f.write_fmt(stylish::format_args!("{:(normal,fg=brightblue,bg=magenta,)s}", x)),
        141 => f.write_fmt(stylish::format_args!("{:(fg=brightmagenta,bg=magenta,bold)s}", x)),
        142 => f.write_fmt(stylish::format_args!("{:(bg=magenta,faint,fg=brightcyan)s}", x)),
        143 => f.write_fmt(stylish::format_args!("{:(bg=magenta,fg=brightwhite)s}", x)),
        144 => f.write_fmt(stylish::format_args!("{:(bg=cyan)s}", x)),
        145 => f.write_fmt(stylish::format_args!("{:(fg=default,normal,bg=cyan)s}", x)),
        146 => f.write_fmt(stylish::format_args!("{:(bg=cyan,fg=black,bold)s}", x)),
        147 => f.write_fmt(stylish::format_args!("{:(faint,bg=cyan,fg=red,)s}", x)),
        148 => f.write_fmt(stylish::format_args!("{:(bg=cyan,fg=green)s}", x)),
        149 => f.write_fmt(stylish::format_args!("{:(bg=cyan,fg=yellow,normal)s}", x)),
        150 => f.write_fmt(stylish::format_args!("{:(fg=blue,bg=cyan,bold)s}", x)),
        151 => f.write_fmt(stylish::format_args!("{:(bg=cyan,faint,fg=magenta)s}", x)),
        152 => f.write_fmt(stylish::format_args!("{:(fg=cyan,bg=cyan)s}", x)),
        153 => f.write_fmt(stylish::format_args!("{:(fg=white,bg=cyan,normal)s}", x)),
        154 => f.write_fmt(stylish::format_args!("{:(bg=cyan,bold,fg=brightblack,)s}", x)),
        155 => f.write_fmt(stylish::format_args!("{:(bg=cyan,fg=brightred,faint)s}", x)),
        156 => f.write_fmt(stylish::format_args!("{:(bg=cyan,fg=brightgreen)s}", x)),
        157 => f.write_fmt(stylish::format_args!("{:(fg=brightyellow,normal,bg=cyan)s}", x)),
        158 => f.write_fmt(stylish::format_args!("{:(bg=cyan,fg=brightblue,bold)s}", x)),
        159 => f.write_fmt(stylish::format_args!("{:(faint,bg=cyan,fg=brightmagenta)s}", x)),
        160 => f.write_fmt(stylish::format_args!("{:(fg=brightcyan,bg=cyan)s}", x)),
        161 => f.write_fmt(stylish::format_args!("{:(normal,fg=brightwhite,bg=cyan,)s}", x)),
        162 => f.write_fmt(stylish::format_args!("{:(bg=white,normal)s}", x)),
        163 => f.write_fmt(stylish::format_args!("{:(bg=white,bold,fg=default)s}", x)),
        164 => f.write_fmt(stylish::format_args!("{:(faint,fg=black,bg=white)s}", x)),
        165 => f.write_fmt(stylish::format_args!("{:(fg=red,bg=white)s}", x)),
        166 => f.write_fmt(stylish::format_args!("{:(fg=green,normal,bg=white)s}", x)),
        167 => f.write_fmt(stylish::format_args!("{:(bg=white,fg=yellow,bold)s}", x)),
        168 => f.write_fmt(stylish::format_args!("{:(faint,bg=white,fg=blue,)s}", x)),
        169 => f.write_fmt(stylish::format_args!("{:(fg=magenta,bg=white)s}", x)),
        170 => f.write_fmt(stylish::format_args!("{:(normal,fg=cyan,bg=white)s}", x)),
        171 => f.write_fmt(stylish::format_args!("{:(fg=white,bg=white,bold)s}", x)),
        172 => f.write_fmt(stylish::format_args!("{:(bg=white,faint,fg=brightblack)s}", x)),
        173 => f.write_fmt(stylish::format_args!("{:(bg=white,fg=brightred)s}", x)),
        174 => f.write_fmt(stylish::format_args!("{:(fg=brightgreen,bg=white,normal)s}", x)),
        175 => f.write_fmt(stylish::format_args!("{:(fg=brightyellow,bold,bg=white,)s}", x)),
        176 => f.write_fmt(stylish::format_args!("{:(bg=white,fg=brightblue,faint)s}", x)),
        177 => f.write_fmt(stylish::format_args!("{:(fg=brightmagenta,bg=white)s}", x)),
        178 => f.write_fmt(stylish::format_args!("{:(fg=brightcyan,normal,bg=white)s}", x)),
        179 => f.write_fmt(stylish::format_args!("{:(bg=white,fg=brightwhite,bold)s}", x)),
        180 => f.write_fmt(stylish::format_args!("{:(bg=brightblack,bold)s}", x)),
        181 => f.write_fmt(stylish::format_args!("{:(bg=brightblack,faint,fg=default)s}", x)),
        182 => f.write_fmt(stylish::format_args!("{:(fg=black,bg=brightblack,)s}", x)),
        183 => f.write_fmt(stylish::format_args!("{:(fg=red,bg=brightblack,normal)s}", x)),
        184 => f.write_fmt(stylish::format_args!("{:(bg=brightblack,bold,fg=green)s}", x)),
        185 => f.write_fmt(stylish::format_args!("{:(bg=brightblack,fg=yellow,faint)s}", x)),
        186 => f.write_fmt(stylish::format_args!("{:(bg=brightblack,fg=blue)s}", x)),
        187 => f.write_fmt(stylish::format_args!("{:(fg=magenta,normal,bg=brightblack)s}", x)),
        188 => f.write_fmt(stylish::format_args!("{:(bg=brightblack,fg=cyan,bold)s}", x)),
        189 => f.write_fmt(stylish::format_args!("{:(faint,bg=brightblack,fg=white,)s}", x)),
        190 => f.write_fmt(stylish::format_args!("{:(fg=brightblack,bg=brightblack)s}", x)),
        191 => f.write_fmt(stylish::format_args!("{:(normal,fg=brightred,bg=brightblack)s}", x)),
        192 => f.write_fmt(stylish::format_args!("{:(fg=brightgreen,bg=brightblack,bold)s}", x)),
        193 => f.write_fmt(stylish::format_args!("{:(bg=brightblack,faint,fg=brightyellow)s}", x)),
        194 => f.write_fmt(stylish::format_args!("{:(fg=brightblue,bg=brightblack)s}", x)),
        195 => f.write_fmt(stylish::format_args!("{:(normal,bg=brightblack,fg=brightmagenta)s}", x)),
        196 => f.write_fmt(stylish::format_args!("{:(fg=brightcyan,bold,bg=brightblack,)s}", x)),
        197 => f.write_fmt(stylish::format_args!("{:(bg=brightblack,fg=brightwhite,faint)s}", x)),
        198 => f.write_fmt(stylish::format_args!("{:(faint,bg=brightred)s}", x)),
        199 => f.write_fmt(stylish::format_args!("{:(fg=default,bg=brightred)s}", x)),
        200 => f.write_fmt(stylish::format_args!("{:(normal,fg=black,bg=brightred)s}", x)),
        201 => f.write_fmt(stylish::format_args!("{:(fg=red,bg=brightred,bold)s}", x)),
        202 => f.write_fmt(stylish::format_args!("{:(bg=brightred,faint,fg=green)s}", x)),
        203 => f.write_fmt(stylish::format_args!("{:(bg=brightred,fg=yellow,)s}", x)),
        204 => f.write_fmt(stylish::format_args!("{:(fg=blue,bg=brightred,normal)s}", x)),
        205 => f.write_fmt(stylish::format_args!("{:(fg=magenta,bold,bg=brightred)s}", x)),
        206 => f.write_fmt(stylish::format_args!("{:(bg=brightred,fg=cyan,faint)s}", x)),
        207 => f.write_fmt(stylish::format_args!("{:(fg=white,bg=brightred)s}", x)),
        208 => f.write_fmt(stylish::format_args!("{:(fg=brightblack,normal,bg=brightred)s}", x)),
        209 => f.write_fmt(stylish::format_args!("{:(bg=brightred,fg=brightred,bold)s}", x)),
        210 => f.write_fmt(stylish::format_args!("{:(fg=brightgreen,bg=brightred,faint,)s}", x)),
        211 => f.write_fmt(stylish::format_args!("{:(bg=brightred,fg=brightyellow)s}", x)),
        212 => f.write_fmt(stylish::format_args!("{:(normal,fg=brightblue,bg=brightred)s}", x)),
        213 => f.write_fmt(stylish::format_args!("{:(fg=brightmagenta,bg=brightred,bold)s}", x)),
        214 => f.write_fmt(stylish::format_args!("{:(bg=brightred,faint,fg=brightcyan)s}", x)),
        215 => f.write_fmt(stylish::format_args!("{:(fg=brightwhite,bg=brightred)s}", x)),
        216 => f.write_fmt(stylish::format_args!("{:(bg=brightgreen)s}", x)),
        217 => f.write_fmt(stylish::format_args!("{:(fg=default,normal,bg=brightgreen,)s}", x)),
        218 => f.write_fmt(stylish::format_args!("{:(bg=brightgreen,fg=black,bold)s}", x)),
        219 => f.write_fmt(stylish::format_args!("{:(faint,bg=brightgreen,fg=red)s}", x)),
        220 => f.write_fmt(stylish::format_args!("{:(fg=green,bg=brightgreen)s}", x)),
        221 => f.write_fmt(stylish::format_args!("{:(normal,fg=yellow,bg=brightgreen)s}", x)),
        222 => f.write_fmt(stylish::format_args!("{:(fg=blue,bg=brightgreen,bold)s}", x)),
        223 => f.write_fmt(stylish::format_args!("{:(bg=brightgreen,faint,fg=magenta)s}", x)),
        224 => f.write_fmt(stylish::format_args!("{:(fg=cyan,bg=brightgreen,)s}", x)),
        225 => f.write_fmt(stylish::format_args!("{:(normal,bg=brightgreen,fg=white)s}", x)),
        226 => f.write_fmt(stylish::format_args!("{:(fg=brightblack,bold,bg=brightgreen)s}", x)),
        227 => f.write_fmt(stylish::format_args!("{:(bg=brightgreen,fg=brightred,faint)s}", x)),
        228 => f.write_fmt(stylish::format_args!("{:(bg=brightgreen,fg=brightgreen)s}", x)),
        229 => f.write_fmt(stylish::format_args!("{:(fg=brightyellow,normal,bg=brightgreen)s}", x)),
        230 => f.write_fmt(stylish::format_args!("{:(bold,fg=brightblue,bg=brightgreen)s}", x)),
        231 => f.write_fmt(stylish::format_args!("{:(fg=brightmagenta,bg=brightgreen,faint,)s}", x)),
        232 => f.write_fmt(stylish::format_args!("{:(fg=brightcyan,bg=brightgreen)s}", x)),
        233 => f.write_fmt(stylish::format_args!("{:(normal,fg=brightwhite,bg=brightgreen)s}", x)),
        234 => f.write_fmt(stylish::format_args!("{:(bg=brightyellow,normal)s}", x)),
        235 => f.write_fmt(stylish::format_args!("{:(fg=default,bold,bg=brightyellow)s}", x)),
        236 => f.write_fmt(stylish::format_args!("{:(bg=brightyellow,fg=black,faint)s}", x)),
        237 => f.write_fmt(stylish::format_args!("{:(fg=red,bg=brightyellow)s}", x)),
        238 => f.write_fmt(stylish::format_args!("{:(fg=green,normal,bg=brightyellow,)s}", x)),
        239 => f.write_fmt(stylish::format_args!("{:(bg=brightyellow,fg=yellow,bold)s}", x)),
        240 => f.write_fmt(stylish::format_args!("{:(fg=blue,bg=brightyellow,faint)s}", x)),
        241 => f.write_fmt(stylish::format_args!("{:(bg=brightyellow,fg=magenta)s}", x)),
        242 => f.write_fmt(stylish::format_args!("{:(normal,fg=cyan,bg=brightyellow)s}", x)),
        243 => f.write_fmt(stylish::format_args!("{:(fg=white,bg=brightyellow,bold)s}", x)),
        244 => f.write_fmt(stylish::format_args!("{:(bg=brightyellow,faint,fg=brightblack)s}", x)),
        245 => f.write_fmt(stylish::format_args!("{:(fg=brightred,bg=brightyellow,)s}", x)),
        246 => f.write_fmt(stylish::format_args!("{:(normal,bg=brightyellow,fg=brightgreen)s}", x)),
        247 => f.write_fmt(stylish::format_args!("{:(fg=brightyellow,bold,bg=brightyellow)s}", x)),
        248 => f.write_fmt(stylish::format_args!("{:(bg=brightyellow,fg=brightblue,faint)s}", x)),
        249 => f.write_fmt(stylish::format_args!("{:(fg=brightmagenta,bg=brightyellow)s}", x)),
        250 => f.write_fmt(stylish::format_args!("{:(bg=brightyellow,normal,fg=brightcyan)s}", x)),
        251 => f.write_fmt(stylish::format_args!("{:(bold,fg=brightwhite,bg=brightyellow)s}", x)),
        252 => f.write_fmt(stylish::format_args!("{:(bg=brightblue,bold,)s}", x)),
        253 => f.write_fmt(stylish::format_args!("{:(bg=brightblue,faint,fg=default)s}", x)),
        254 => f.write_fmt(stylish::format_args!("{:(fg=black,bg=brightblue)s}", x)),
        255 => f.write_fmt(stylish::format_args!("{:(normal,bg=brightblue,fg=red)s}", x)),
        256 => f.write_fmt(stylish::format_args!("{:(fg=green,bold,bg=brightblue)s}", x)),
        257 => f.write_fmt(stylish::format_args!("{:(bg=brightblue,fg=yellow,faint)s}", x)),
        258 => f.write_fmt(stylish::format_args!("{:(bg=brightblue,fg=blue)s}", x)),
        259 => f.write_fmt(stylish::format_args!("{:(fg=magenta,normal,bg=brightblue,)s}", x)),
        260 => f.write_fmt(stylish::format_args!("{:(bold,fg=cyan,bg=brightblue)s}", x)),
        261 => f.write_fmt(stylish::format_args!("{:(fg=white,bg=brightblue,faint)s}", x)),
        262 => f.write_fmt(stylish::format_args!("{:(fg=brightblack,bg=brightblue)s}", x)),
        263 => f.write_fmt(stylish::format_args!("{:(normal,fg=brightred,bg=brightblue)s}", x)),
        264 => f.write_fmt(stylish::format_args!("{:(fg=brightgreen,bg=brightblue,bold)s}", x)),
        265 => f.write_fmt(stylish::format_args!("{:(fg=brightyellow,faint,bg=brightblue)s}", x)),
        266 => f.write_fmt(stylish::format_args!("{:(bg=brightblue,fg=brightblue,)s}", x)),
        267 => f.write_fmt(stylish::format_args!("{:(normal,bg=brightblue,fg=brightmagenta)s}", x)),
        268 => f.write_fmt(stylish::format_args!("{:(fg=brightcyan,bold,bg=brightblue)s}", x)),
        269 => f.write_fmt(stylish::format_args!("{:(bg=brightblue,fg=brightwhite,faint)s}", x)),
        270 => f.write_fmt(stylish::format_args!("{:(bg=brightmagenta,faint)s}", x)),
        271 => f.write_fmt(stylish::format_args!("{:(bg=brightmagenta,fg=default)s}", x)),
        272 => f.write_fmt(stylish::format_args!("{:(normal,fg=black,bg=brightmagenta)s}", x)),
        273 => f.write_fmt(stylish::format_args!("{:(fg=red,bg=brightmagenta,bold,)s}", x)),
        274 => f.write_fmt(stylish::format_args!("{:(bg=brightmagenta,faint,fg=green)s}", x)),
        275 => f.write_fmt(stylish::format_args!("{:(fg=yellow,bg=brightmagenta)s}", x)),
        276 => f.write_fmt(stylish::format_args!("{:(normal,bg=brightmagenta,fg=blue)s}", x)),
        277 => f.write_fmt(stylish::format_args!("{:(fg=magenta,bold,bg=brightmagenta)s}", x)),
        278 => f.write_fmt(stylish::format_args!("{:(bg=brightmagenta,fg=cyan,faint)s}", x)),
        279 => f.write_fmt(stylish::format_args!("{:(fg=white,bg=brightmagenta)s}", x)),
        280 => f.write_fmt(stylish::format_args!("{:(bg=brightmagenta,normal,fg=brightblack,)s}", x)),
        281 => f.write_fmt(stylish::format_args!("{:(bold,fg=brightred,bg=brightmagenta)s}", x)),
        282 => f.write_fmt(stylish::format_args!("{:(fg=brightgreen,bg=brightmagenta,faint)s}", x)),
        283 => f.write_fmt(stylish::format_args!("{:(bg=brightmagenta,fg=brightyellow)s}", x)),
        284 => f.write_fmt(stylish::format_args!("{:(normal,fg=brightblue,bg=brightmagenta)s}", x)),
        285 => f.write_fmt(stylish::format_args!("{:(bold,bg=brightmagenta,fg=brightmagenta)s}", x)),
        286 => f.write_fmt(stylish::format_args!("{:(fg=brightcyan,faint,bg=brightmagenta)s}", x)),
        287 => f.write_fmt(stylish::format_args!("{:(fg=brightwhite,bg=brightmagenta,)s}", x)),
        288 => f.write_fmt(stylish::format_args!("{:(bg=brightcyan)s}", x)),
        289 => f.write_fmt(stylish::format_args!("{:(fg=default,normal,bg=brightcyan)s}", x)),
        290 => f.write_fmt(stylish::format_args!("{:(bold,fg=black,bg=brightcyan)s}", x)),
        291 => f.write_fmt(stylish::format_args!("{:(fg=red,bg=brightcyan,faint)s}", x)),
        292 => f.write_fmt(stylish::format_args!("{:(fg=green,bg=brightcyan)s}", x)),
        293 => f.write_fmt(stylish::format_args!("{:(normal,fg=yellow,bg=brightcyan)s}", x)),
        294 => f.write_fmt(stylish::format_args!("{:(fg=blue,bg=brightcyan,bold,)s}", x)),
        295 => f.write_fmt(stylish::format_args!("{:(fg=magenta,faint,bg=brightcyan)s}", x)),
        296 => f.write_fmt(stylish::format_args!("{:(bg=brightcyan,fg=cyan)s}", x)),
        297 => f.write_fmt(stylish::format_args!("{:(normal,bg=brightcyan,fg=white)s}", x)),
        298 => f.write_fmt(stylish::format_args!("{:(fg=brightblack,bold,bg=brightcyan)s}", x)),
        299 => f.write_fmt(stylish::format_args!("{:(bg=brightcyan,fg=brightred,faint)s}", x)),
        300 => f.write_fmt(stylish::format_args!("{:(fg=brightgreen,bg=brightcyan)s}", x)),
        301 => f.write_fmt(stylish::format_args!("{:(bg=brightcyan,normal,fg=brightyellow,)s}", x)),
        302 => f.write_fmt(stylish::format_args!("{:(bold,fg=brightblue,bg=brightcyan)s}", x)),
        303 => f.write_fmt(stylish::format_args!("{:(fg=brightmagenta,bg=brightcyan,faint)s}", x)),
        304 => f.write_fmt(stylish::format_args!("{:(fg=brightcyan,bg=brightcyan)s}", x)),
        305 => f.write_fmt(stylish::format_args!("{:(bg=brightcyan,fg=brightwhite,normal)s}", x)),
        306 => f.write_fmt(stylish::format_args!("{:(normal,bg=brightwhite)s}", x)),
        307 => f.write_fmt(stylish::format_args!("{:(fg=default,bold,bg=brightwhite)s}", x)),
        308 => f.write_fmt(stylish::format_args!("{:(bg=brightwhite,fg=black,faint,)s}", x)),
        309 => f.write_fmt(stylish::format_args!("{:(fg=red,bg=brightwhite)s}", x)),
        310 => f.write_fmt(stylish::format_args!("{:(bg=brightwhite,normal,fg=green)s}", x)),
        311 => f.write_fmt(stylish::format_args!("{:(bold,fg=yellow,bg=brightwhite)s}", x)),
        312 => f.write_fmt(stylish::format_args!("{:(fg=blue,bg=brightwhite,faint)s}", x)),
        313 => f.write_fmt(stylish::format_args!("{:(bg=brightwhite,fg=magenta)s}", x)),
        314 => f.write_fmt(stylish::format_args!("{:(normal,fg=cyan,bg=brightwhite)s}", x)),
        315 => f.write_fmt(stylish::format_args!("{:(bold,bg=brightwhite,fg=white,)s}", x)),
        316 => f.write_fmt(stylish::format_args!("{:(fg=brightblack,faint,bg=brightwhite)s}", x)),
        317 => f.write_fmt(stylish::format_args!("{:(fg=brightred,bg=brightwhite)s}", x)),
        318 => f.write_fmt(stylish::format_args!("{:(normal,bg=brightwhite,fg=brightgreen)s}", x)),
        319 => f.write_fmt(stylish::format_args!("{:(fg=brightyellow,bold,bg=brightwhite)s}", x)),
        320 => f.write_fmt(stylish::format_args!("{:(faint,fg=brightblue,bg=brightwhite)s}", x)),
        321 => f.write_fmt(stylish::format_args!("{:(bg=brightwhite,fg=brightmagenta)s}", x)),
        322 => f.write_fmt(stylish::format_args!("{:(bg=brightwhite,normal,fg=brightcyan,)s}", x)),
        _ => f.write_fmt(stylish::format_args!("{:(bold,fg=brightwhite,bg=brightwhite)s}", x)),
    }
}
