//! Documents with one dimension made large.

/// (name of the dimension, largest size read, which keeps the cost down)
pub const DIMS: &[(&str, usize)] = &[
    ("tag_name", 200_000),
    ("tag_name_wide", 70_000),
    ("attr_name", 70_000),
    ("prefix_name", 70_000),
    ("attr_count_same", 70_000),
    ("attr_count_distinct", 3000),
    ("attr_value_q", 200_000),
    ("attr_value_u", 200_000),
    ("attr_value_wide", 70_000),
    ("string", 200_000),
    ("string_wide", 70_000),
    ("string_lines", 70_000),
    ("string_hashes", 200_000),
    ("string_near_miss", 70_000),
    ("string_many_quotes", 70_000),
    ("strings", 70_000),
    ("comment_line", 200_000),
    ("comment_wide", 70_000),
    ("comment_lines", 70_000),
    ("comment_blank_lines", 70_000),
    ("comments", 70_000),
    ("comment_indent", 70_000),
    ("siblings", 70_000),
    ("siblings_boxed", 70_000),
    ("depth", 1100),
    ("depth_named", 1100),
    ("box_depth", 70_000),
    ("box_depth_close_inner", 17_000),
    ("boxes_at_depth", 1100),
    ("up_down", 600),
    ("spaces", 200_000),
    ("newlines", 200_000),
    ("wide_spaces", 70_000),
    ("mixed_newlines", 70_000),
    ("leading_lines", 70_000),
    ("after_box", 70_000),
    ("names_distinct", 3000),
    ("ns_decls", 1500),
    ("ns_nest", 1100),
    ("ns_box_nest", 3000),
    ("ns_box_deep", 70_000),
    ("ns_box_open", 70_000),
    ("ns_box_bad", 70_000),
    ("ns_siblings", 3000),
    ("bad_after", 70_000),
    ("too_deep_after", 1100),
    ("too_deep_by", 200_000),
    ("close_too_deep_by", 200_000),
    ("bad_close_after", 17_000),
    ("attr_after_string", 70_000),
];

/// Sizes far beyond those
const HUGE: &[(&str, usize, usize)] = &[
    ("tag_name", 1_100_000, 5_000_000),
    ("attr_name", 1_100_000, 5_000_000),
    ("attr_count_same", 300_000, 1_100_000),
    ("attr_value_q", 1_100_000, 17_000_000),
    ("attr_value_u", 1_100_000, 17_000_000),
    ("attr_value_wide", 1_100_000, 5_000_000),
    ("string", 1_100_000, 17_000_000),
    ("string_wide", 1_100_000, 5_000_000),
    ("string_lines", 1_100_000, 5_000_000),
    ("string_hashes", 1_100_000, 17_000_000),
    ("strings", 300_000, 1_100_000),
    ("comment_line", 1_100_000, 17_000_000),
    ("comment_lines", 300_000, 1_100_000),
    ("comments", 100_000, 300_000),
    ("siblings", 300_000, 1_100_000),
    ("spaces", 1_100_000, 17_000_000),
    ("newlines", 1_100_000, 17_000_000),
    ("ns_box_deep", 300_000, 1_100_000),
    ("ns_box_open", 300_000, 1_100_000),
    ("ns_box_bad", 300_000, 1_100_000),
    ("too_deep_by", 1_100_000, 17_000_000),
];

pub fn sized(dim: &str, n: usize) -> String {
    let rep = |s: &str, n: usize| s.repeat(n);
    let nm = |i: usize| format!("n{}", i);
    match dim {
        "tag_name" => {
            let t = rep("x", n + 1);
            format!("#{t}{{ a=1 \"s\" #{t}b #{t}}}")
        }
        "tag_name_wide" => {
            let t = rep("\u{e9}\u{4e2d}", n + 1);
            format!("#{t} a=1 ##{t}\n \"s\"")
        }
        "attr_name" => format!("#a {}=1 b=2 ##c {}='x'", rep("k", n + 1), rep("\u{e9}", n + 1)),
        "prefix_name" => {
            let t = rep("p", n + 1);
            format!("#{t}:a xmlns:{t}='u' {t}:b='1' ##{t}:c")
        }
        "attr_count_same" => format!("#a {} \"s\" ##b x=1", rep("k='v' ", n)),
        "attr_count_distinct" => {
            let mut s = String::from("#a ");
            for i in 0..n {
                s.push_str(&format!("k{}='v{}' ", i, i));
            }
            s.push_str("##b k0=z k1=y");
            s
        }
        "attr_value_q" => format!("#a x='{}' y=\"{}\"", rep("v", n), rep("w ", n)),
        "attr_value_u" => format!("#a x=z{} y=1", rep("v", n)),
        "attr_value_wide" => format!("#a x=z{} y='{}' ##b", rep("\u{1f600}", n), rep("\u{e9}", n)),
        "string" => format!("#a \"{}\" '{}' ##b", rep("s", n), rep("t ", n)),
        "string_wide" => format!("#a r\"{}\" #'{}'#", rep("\u{4e2d}", n), rep("\u{1f600}\n", n)),
        "string_lines" => format!("#a #\"{}\"# ##b\n##c", rep("l\n", n)),
        "string_hashes" => {
            let h = rep("#", n + 1);
            format!("#a {h}\"s\"{h} r{h}'t'{h} ##b")
        }
        "string_near_miss" => {
            let h = rep("#", n + 1);
            let l = rep("#", n);
            format!("#a {h}\"x\"{l} \"y\"{l}\"\"{h} ##b {h}'\"{h}'{h}")
        }
        "string_many_quotes" => format!("#a ##\"{}\"## #'{}'#", rep("\"#", n), rep("\"#", n)),
        "strings" => format!("#a {} ##b", rep("\"s\"", n)),
        "comment_line" => format!("#a ;{}\n##b", rep("c", n)),
        "comment_wide" => format!(";{}\n#a ;{}", rep("\u{e9}", n), rep("\u{1f600}", n)),
        "comment_lines" => format!("#a {}##b ;x", rep(";c\n", n)),
        "comment_blank_lines" => format!("#a {}##b ;", rep(";\n", n)),
        "comments" => format!("{}#a{{ {}#a}} {}", rep(";c\n\n", n), rep("\"s\";d\n", n), rep(";e\n\n", n)),
        "comment_indent" => format!("#a\n;x\n{};y\n{};z\n##b", rep(" ", n), rep("\t", n)),
        "siblings" => format!("#a {} ##c", rep("##b ", n)),
        "siblings_boxed" => format!("#a {} \"s\"", rep("##b{ ##b} ", n)),
        "depth" => {
            let mut s = String::new();
            for i in 0..n + 1 {
                s.push_str(&rep("#", i + 1));
                s.push_str("a ");
            }
            s.push_str("\"s\" ##b");
            s
        }
        "depth_named" => {
            let mut s = String::new();
            for i in 0..n + 1 {
                s.push_str(&rep("#", i + 1));
                s.push_str(&nm(i));
                s.push('\n');
            }
            s.push_str(";end");
            s
        }
        "box_depth" => {
            format!("{}#b{}", rep("#a{ ", n + 1), rep(" #a}", n + 1))
        }
        "box_depth_close_inner" => {
            format!("{}#b ##c{}", rep("#a{ \"s\" ", n + 1), rep(" #a} ;c\n", n + 1))
        }
        "boxes_at_depth" => {
            let mut s = String::new();
            for i in 0..n + 1 {
                s.push_str(&rep("#", i + 1));
                s.push_str("a ");
            }
            let h = rep("#", n + 2);
            s.push_str(&format!("{h}x{{ #y ##z{{ #w ##z}} {h}x}} \"s\" {h}x{{ {h}x}} ##q"));
            s
        }
        "up_down" => {
            let mut s = String::from("#r ");
            for i in 0..n {
                for k in 0..(i % 9) + 1 {
                    s.push_str(&rep("#", k + 2));
                    s.push_str("a ");
                }
            }
            s
        }
        "spaces" => format!("#a{} x=1{}##b", rep(" ", n + 1), rep(" ", n + 1)),
        "newlines" => format!("#a{}x=1{}##b", rep("\n", n + 1), rep("\n", n + 1)),
        "wide_spaces" => format!("#a \u{3000}{}x=1 {}##b", rep("\u{a0}", n), rep("\u{2003}", n)),
        "mixed_newlines" => format!("#a {}x=1 ;c\n{}##b", rep(" \n\t\r\n", n), rep("\u{a0}\n", n)),
        "leading_lines" => format!("{};c\n#a", rep("\n", n)),
        "after_box" => format!("#a{{ #b{{ #c #b}} {} #d #a}} ;e", rep("\"s\" ", n)),
        "names_distinct" => {
            let mut s = String::from("#a ");
            for i in 0..n {
                s.push_str(&format!("##{} ", nm(i)));
            }
            for i in 0..n.min(300) {
                s.push_str(&format!("##{} ", nm(i)));
            }
            s
        }
        "ns_decls" => {
            let mut s = String::from("#a ");
            for i in 0..n {
                s.push_str(&format!("xmlns:p{}='u{}' ", i, i));
            }
            for i in (0..n).step_by(1 + n / 50) {
                s.push_str(&format!("##p{}:b ", i));
            }
            s
        }
        "ns_nest" => {
            let mut s = String::new();
            for i in 0..n + 1 {
                s.push_str(&rep("#", i + 1));
                s.push_str(&format!("a xmlns='u{}' xmlns:p='v{}' p:k=1 ", i, i));
            }
            s.push_str(";c\n##p:b x=1");
            s
        }
        "ns_box_nest" => {
            let mut s = String::new();
            for i in 0..n + 1 {
                s.push_str(&format!("#p:a{{ xmlns:p='u{}' ", i));
            }
            for _ in 0..n + 1 {
                s.push_str(" #p:b #p:a}");
            }
            s
        }
        "ns_box_deep" => {
            // the declarations make the lookup of the prefix quick
            format!("{}#b{}", rep("#a{ xmlns='u' xmlns:xmlns='v' ", n + 1), rep(" #a}", n + 1))
        }
        "ns_box_open" => format!("{}#b", rep("#a{ xmlns='u' xmlns:xmlns='v' ", n + 1)),
        "ns_box_bad" => format!("{}#b %", rep("#a{ xmlns='u' xmlns:xmlns='v' ", n + 1)),
        "ns_siblings" => {
            let mut s = String::from("#a xmlns='d' xmlns:p='q' ");
            for i in 0..n {
                s.push_str(&format!("##b xmlns='u{}' xmlns:p='v' ##p:c ", i % 7));
            }
            s
        }
        "bad_after" => format!("#a {} %", rep("##b\n", n)),
        "too_deep_after" => {
            let mut s = String::new();
            for i in 0..n + 1 {
                s.push_str(&rep("#", i + 1));
                s.push_str("a ");
            }
            s.push_str(&rep("#", n + 3));
            s.push_str("b ");
            s
        }
        "too_deep_by" => format!("#a ##b \"s\" {}c x=1", rep("#", n + 4)),
        "close_too_deep_by" => format!("#a{{ #b \"s\" {}a}}", rep("#", n + 2)),
        "bad_close_after" => format!("{} #b}}", rep("#a{ ", n + 1)),
        "attr_after_string" => format!("#a {} x=1", rep("'s' ", n + 1)),
        _ => panic!("unknown dimension {}", dim),
    }
}

/// All (dimension, size) pairs up to a largest size
pub fn plan(sizes: &[usize], dims: &[&str], thorough: bool) -> Vec<(&'static str, usize)> {
    let mut v = vec![];
    for (d, max) in DIMS {
        // reading a deep nest of boxes takes time quadratic in its depth
        let max = if *d == "box_depth" && !thorough {
            &17_000
        } else {
            max
        };
        if !dims.is_empty() && !dims.contains(d) {
            continue;
        }
        for s in sizes {
            if s <= max {
                v.push((*d, *s));
            }
        }
        if sizes.last() >= Some(&60_000) {
            for (_, q, t) in HUGE.iter().filter(|h| h.0 == *d) {
                v.push((*d, if thorough { *t } else { *q }));
            }
        }
    }
    v
}
