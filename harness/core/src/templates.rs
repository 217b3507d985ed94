//! Input families: literal text with symbolic holes (see common::fill).

pub const PREFIXES: &[&str] = &["", "select ", "select a ", "table a ", "select 1 from t where "];

/// scanning: every kind of token in a context that makes its rules interact
pub const LEX: &[&str] = &[
    // quoted strings and escapes
    "'{q4}", "'a{q3}'", "e'{q4}'", "e'\\{q4}'", "e'a\\{u1}\\{u1}'", "E'\\x{h2!}{q1}'", "e'\\{d1!}{d1!}{d1!}{d1!}'", "e'{u3}'",
    "e'\\u{h4!}'", "e'\\u{h3!}{u1}'", "e'\\U0{h1!}{h1!}{h1!}0041'", "e'\\U{h8!}'", "e'\\ud8{h2!}\\u{h4!}'", "e'\\uD83D\\uDE0{h1!}{q1}'",
    "e'\\uD83D{q2}", "e'\\U0000D83D\\U0000DE{h2!}'", "e'\\uD83D\\n'", "e'\\uD83D\\U0000DE00'",
    "n'{q3}", "N'{q2}'", "b'{q3}'", "B'01{q2}", "x'{q3}'", "X'fF{q2}", "u&'{q3}'", "U&'\\{q3}", "u&\"{q3}\"", "U&\"a{q2}", "u&{u2}", "\"{q4}", "\"a{u2}\"",
    // continuation over a newline
    "'a'{s2}'b'{q1}", "'a' {t2}\n'b'", "'a'{t3}'b'", "e'a'{t2}\n'\\{q1}'", "b'0'{s2}'1'", "x'0'{s2}'1'", "u&'a'{s2}'b'", "n'a'{s2}'b'", "'a'--{u1}\n'b'", "'a'\n--{u1}\n'b'", "'a'\n/*{u1}*/'b'",
    // dollar quotes
    "${u3}", "$${u3}$$", "$${q3}", "$a${u2}$a$", "$a$$b${q2}$a$", "$ab$ $a{u1}$ab{u1}$ab$", "$A${q1}$a$ $A$", "$\u{e9}$ {u2}$\u{e9}$", "a$b$ {q2}", "$1$ {q2}", "$_1${q1}$_1${q1}",
    // comments
    "/{t4}", "/*{t3}*/", "/*{t2}*/{t2}", "/*/*{t2}*/{t2}", "/*/*/*{t1}*/*/{t2}", "/*{u2}*/", "--{u3}", "--{t3}", "a--{t2}\nb", "a/*{t2}*/b", "/**{t2}**/", "-{t2}-\n{t1}", "--{u1}\r{u1}", "--{u1}\n--{u1}",
    // operators
    "{o3}", "{o3}a", "a{o3}b", "@{o3}", "+{o3}", "<{o2}-{o1}", "-{o3}1", "*{o2}/*{t1}*/", "@{o1}--{t1}", "/{o1}/*{t1}*/", "{r61!+}{o3}", "{r62!@}{o2}", "{r63!<}{o2}", "{r64!=}{o1}", "a:{o2}", "a.{o2}", "1{o2}2",
    // numbers
    "{n4}", "0x{n3}", "0X{h2!}_{n1}", "0b{n3}", "0B1_{n2}", "0o{n3}", "0O7{n2}", "1_{n3}", "1e{n3}", "1.{n3}", ".{n3}", "1..{n2}", "{d2!}e+{n2}", "{d1!}.{d1!}{n2}", "1.5e{n2}", "0{n3}", "00{n2}",
    "214748364{n1}{n1}", "2147483{d3!}", "-2147483648", "0x7fffff{h2!}", "0x8000000{h1!}", "0x00007fffffff{h1!}", "0x{h1!}fffffff", "0o1777777777{d1!}", "0o2000000000{d1!}", "0b{r30!1}{n2}", "0b1{r30!0}{n1}", "9999999999{n1}", "2_147_483_64{n1}", "1__{n1}", "{d1!}_{d1!}_{n1}",
    // parameters
    "${n3}", "$1{u2}", "$214748364{n1}", "$2147483648", "$99999999999{n1}", "$0{n2}", "$00000000002147483647{n1}",
    // words
    "{w4}", "a{u3}", "\u{e9}{u2}", "_{w2}${w1}", "{u1}\u{4e00}{u1}", "\u{1f600}{u2}", "{r62!a}{w2}", "{r70!a}{w1}", "B{q1}0{q1}", "e{u2}", "n{u2}", "x{u2}", "b{u2}",
    // neighbours
    "{u1}{s1}{u1}", "(a{o1}b)::{w1}", "a;{u1};b", "[{n1}:{n1}]", "\u{feff}{u1}", "a\u{a0}{u1}", "{s4}", "{s1}{u2}{s1}", "\u{3000}{u1}", "a\x0b{u1}\x0cb",
    // pieces
    "{k2}{j1}", "a{p4}", "{p3}{c1}", "{N3}", "'{j3}", "e'{j3}'", "{c3}a", "'a'{c3}'b'", "e'a'{c2}'\\{q1}'", "$${j3}$$", "/*{j3}*/", "u&\"{j3}", "b'{j2}'",
];

/// white space and comments in every position of ordinary statements
pub const TRIVIA: &[&str] = &[
    "{t4}", "select{t4}1", "select 1{t4}", "{t3}select 1", "select{t3}a from b", "select a{t3}from b", "select a from{t3}b{t1}",
    "select a from b{t3};", "select 1;{t4}", "select 1{t2};{t2}select 2", "select 1;{t2};{t2}select 2{t1}", ";{t3}", "{t2};{t2}",
    "select (/{t3}/1)", "select f({t3})", "select a{t2},{t2}b", "select a{t1}.{t1}b", "select 'a'{t3}", "select 'a'{t3}'b'", "select 1+{t3}2", "select 1{t2}-{t2}2", "select -{t3}1", "select 1 as{t3}b",
    "insert{t2}into t{t2}values(1)", "select 1;{t3}insert into t values (1)", "/*a*/{t2}insert into t values (1)", "update t set a{t2}={t2}1", "delete{t2}from t{t2}where a", "with{t2}a as (select 1){t2}select 2", "select 1;{t2}with a as (select 1) select 2",
    "create table t{t2}({t2}a int{t1})", "select case{t2}when a{t2}then b end", "select a not{t2}in (1)", "select * from a{t2}left{t2}join b on c",
    "select 1--{u2}", "select 1--{u1}\n{t2}", "select /*{u2}*/1", "/*{u1}*/select 1/*{u1}*/", "select 1 --{u1}\n--{u1}\n+ 2", "select 1/*/*{u1}*/{u1}*/", "--{u1}\r\n{t1}select 1", "select{s3}1", "{s2}select{s2}1{s2}", "select\n{t2}\n1;\n{t1}", "select a/*{t2}*//*{t2}*/,b", "select \u{a0}{t1}", "select 1\x00{u1}",
    "{c4}", "{c3}select 1", "select{c3}1", "select 1{c4}", "select 1{c2};{c2}select 2", "{c2};{c1};{c1}", "select a{c2},{c2}b", "select f({c3})", "select a from{c1}b{c2}where{c1}c", "select (a{c2})", "select 'a'{c3}'b'", "select e'a'{c2}'b'{c1}", "select a{c1}.{c2}b", "select a.{c2}*", "select -{c3}1", "select 1{c2}+{c2}2", "select count(*{c2}){c2}from a",
    "insert into t{c2}(a{c1}){c1}values(1)", "{c2}insert into t values (1){c2};", "update t{c1}set a{c2}={c1}1", "create table t{c1}({c2}a int{c1})", "create table t ({c3})", "select case{c2}a when b then c{c2}end", "select a from b{c1}c{c2}join d on e", "select a not{c3}in (b)", "select 1 order{c2}by 2{c2}", "with{c2}a as{c1}(select 1){c1}select 2", "begin{c2};{c1}commit{c1}", "select a[{c2}1{c1}]", "select a ::{c3}int", "values{c1}(1){c2},{c1}(2)", "{c2}/*{c2}*/select 1",
];

/// ordinary statements with holes for words, operators, numbers and text
pub const STMT: &[&str] = &[
    "select {i3}", "select {i2} {i2}", "select a {i3} b", "select a{o2}b", "select {n3}", "select {q3}", "select {u3}", "select a {o1} b {o1} c", "select {o1}a", "select a {o1} {o1} b", "select -{n2}", "select not a {o1} b", "select a {i2} b {i2} c", "select a {i4} b", "select a not {i4} b", "select a is {i4}", "select a is not {i4}", "select (a{o1}b){o1}c",
    "select a {i4} b {i3} c", "select a.{i2}.{i1}", "select a[{n1}:{n1}]", "select a::{i3}", "select {i3}(a)", "select {i3}(*)", "select {i3}()", "select {i4} 'a'", "select a {i7} b", "select a as {i3}", "select a {i3}", "select {i3} from {i3}", "select * from {i2} {i2}", "select * from a {i4} join b on c", "select * from a, {i2} b", "select a {i5} 1", "select a from b {i5} c", "select a from b {i5} by c", "select a from b order by c {i4}", "select a from b order by c nulls {i4}", "select a from b limit {i3} {i6} 1", "select {i8} a", "select a {i5} select b", "select a {i6} all select b", "select distinct {i2}", "select all {i3}", "({u1}select 1)", "values ({u1}), ({u1})", "select {u1}1{u1}", "table {i3}",
    "select case {i1} when {u1} then b end", "select cast(a as {i3})", "select a between b {i3} c", "select a in ({u1})", "select a = {i3} (b)", "select exists({i6} a)", "select array[{u1}]", "select row({u1})", "select ($1{o1}$2)", "select interval '1' {i4}", "select a at time {i4} b", "select time with {i4} zone", "select a collate {i1}", "select f(a {o2} b)", "select f(distinct {i1})", "select f(a) {i4} (b)", "select f(a) over ({i5} by b)", "select f(a) filter (where {i1})", "select count(*) {i6} (where a)", "select extract({i4} from a)", "select trim({i4} from a)", "select substring(a {i4} 1)", "select position(a {i2} b)", "select overlay(a placing b {i4} 1)", "select xmlelement(name {i1})", "select json_object({i1}: b)", "select a is {i4} document", "select a is json {i5}", "select coalesce({u1})", "select nullif(a{u1}b)", "select a like b {i6} c", "select a {i5} like b",
    "insert into {i2} {i6} (1)", "insert into t ({u1}) values ({u1})", "insert into t default {i6}", "insert into t values (1) {i9} a", "insert into t values (1) on conflict do {i7}", "update {i2} set a {o1} 1", "update t set (a{u1}b) = (1, 2)", "update t set a = {i7} {i5} b", "delete from {i2} {i5} a", "merge into t using s on a when {i7} then {i6}", "with {i2} as ({i6} 1) select 2", "with recursive a as {i12} (select 1) select 2", "{i6} t", "{i5} t", "{i4} t", "{i6} {i5} t", "{i6} table t", "create {i4} t", "create {i5} t (a int)", "create table t ({i1} {i3})", "create table t (a int {i7} {i3})", "create table t (a int {i7})", "create table t (a int, {i6} (a))", "create {i6} table t (a int)", "create table t (a int) {i4} (b)", "create table if {i3} exists t (a int)", "create unique {i5} i on t (a {i3})", "create index i on t using {i3} (a)", "create view v {i2} select 1", "create {i2} replace view v as select 1", "create function f() returns {i3} {i8} 'a'", "create function f() returns int language sql {i6} 1", "create type t as {i4} ('a')", "create domain d as {i3} {i5} (a)", "create sequence s {i5} {i4} 1", "create schema {i13} a", "create extension {i3}", "create trigger t {i6} insert on a for each {i3} execute function f()", "create policy p on t for {i6} using (a)", "create role r {i5}", "create database d {i5} a", "alter table t {i3} {i6} a int", "alter table t {i4} column a", "alter table t alter a {i3} default 1", "alter table t alter a {i4} int", "alter table t rename {i2} b", "alter table t {i5} to b", "alter {i5} t rename to u", "drop {i5} t {i7}", "drop table {i2} exists t", "truncate {i5} t", "comment on {i5} t {i2} 'a'", "grant {i6} on t to {i1}", "revoke {i6} on t {i4} r", "begin {i4}", "commit {i3} chain", "rollback to {i9} a", "start {i11}", "set {i2} to {i2}", "set a = {n2}", "show {i3}", "reset {i3}", "explain {i7} select 1", "explain ({i4} {i3}) select 1", "analyze {i2}", "vacuum {i4} t", "copy t from {i5}", "copy t to 'a' with ({i6} {i3})", "prepare p {i2} select 1", "execute p({u1})", "deallocate {i3}", "declare c {i6} for select 1", "fetch {i4} from c", "close {i3}", "listen {i1}", "notify a, {q3}", "lock table t in {i5} mode", "do {q3}", "call f({u1})", "refresh materialized {i4} v", "reindex {i5} t", "cluster t {i5} i", "discard {i3}", "security label on {i5} t is 'a'", "import foreign schema s {i4} server f {i4} t",
    "select 1;{u1}select 2", "select 1{u1}; select 2;", ";{u2}", "select 1;{i6} 2", "select a b {i1}", "select a,{u1}", "select (a{u1}", "select a){u1}", "select from {i2}", "select a from {u2}", "{u3}", "select a where {u2}", "selec{i1} 1", "{u1}elect 1", "select 1 {u1} 1", "select a from b c {u1}", "select $1{u2}", "select a{u1}b", "select :{i1}", "select a ? {i1}", "select $ {u1}", "select {{ {u1}", "select \\ {u1}", "\u{e9}{u1} a", "select \u{e9}{u1}",
];

/// identifier-shaped words of every length
pub const WORDS: &[&str] = &["{W}", "select {W}", "select a {W}", "create {W}", "alter {W} a", "drop {W}", "select * from a {W}", "set {W} = a", "select a as {W}", "select {W}(1)", "create table {W} (a int)", "select {W} 'a'", "select a.{W}", "create function {W}()", "select a::{W}", "select * from {W}()", "insert into t ({W}) values (1)",
    "select a {i2}{x}{i1} b", "select a {i1}{x} null", "select a {i1}{x}n (b)", "{x}{i5} 1", "select {i2}{x}{i3}t 1", "select a from b {i2}{x}{i2} 1", "select a {i3}{x} b", "select {x}{i1} b", "select a li{x}e b", "select a l{i1}{x}e b", "select a{x}b", "select \"{x}\"", "select a as {x}{i1}", "select {i1}{x} 'a'", "loc{x} table a", "select a {x}n (b)", "{x}et a = b", "create {x}{i3} a", "{i3}{x} table a",
];

/// keywords whose token depends on the next one
pub const LOOK: &[&str] = &[
    "select a not {W} b", "select a not{t3}in (b)", "select a not/*{u1}*/like b", "select a not --{u1}\nbetween b and c", "select not {W}", "select a order by b nulls {W}", "select a order by b nulls{t3}first", "select a order by b nulls --{u1}\nlast", "select nulls {W}", "select nulls",
    "select 1 with {W}", "select * from f() with {W}", "select * from f() with{t3}ordinality", "create table t (a time with {W} zone)", "create table t (a time with/*{u1}*/time zone)", "create table t (a timestamp without {W} zone)", "create table t (a timestamp without{t3}time zone)", "with {W} as (select 1) select 2", "with time as (select 1) select 2", "select without {W}",
    "select json_object('a' value 'b' format {W})", "select json_object(a: b format{t3}json)", "copy t from stdin with (format {W})", "select format {W}", "select format json", "select a not", "select a nulls", "select 1 with", "select not\u{e9}{u1} a", "select a not \"in\" (b)", "select a not 'in'", "select a not in\"{u1}\"", "select a not between not {w2}", "select not not {w2}", "grant a on b to c with {W} option", "create view v as select 1 with {W} check option",
    "select a not{c3}in (b)", "select a not{c2}between b and{c1}c", "select a order by b nulls{c3}last", "select * from f() with{c3}ordinality", "create table t (a time with{c2}time zone)", "create table t (a timestamp without{c3}time zone)", "select json_object(a: b format{c2}json)", "with{c2}time as (select 1) select 2", "grant a on b to c with{c2}grant option", "select a not{c2}in{c1}(b) not{c1}like c", "select a is not{c2}null", "select a not{c2}similar{c1}to b", "select a not{c2};", "select a nulls{c2}", "select not{c2}format{c1}json",
    "select a not{R9:/**/}{t1}in (b)", "select a not {R24:--a\n}like{t1}b", "select a order by b nulls{R20:--\n}{t1}last", "select * from f() with {R33:/*a*/}ordinality{t1}", "create table t (a time without{R12: /**/ }time zone{t1})", "copy t from stdin with (format{R17:/**/}json{t1})", "select json_object(a: b format{R17:/**/\n}json{t1})",
    "select u&\"a\"{t1}uescape {q1}'!'", "select u&'a' {W} '!'", "select u&'a'{t1}",
];

/// operators and what looks like one
pub const OPS: &[&str] = &[
    "select {o4}a", "select a{o4}b", "select a {o4} b", "select a{o3}-1", "select a{o2}-{o1}b", "select a{o2}+{o1}+1", "select a*{o3}b", "select a<{o3}b", "select a>{o3}b", "select a={o3}b", "select a!{o3}b", "select a:{o3}b", "select a-{o3}b", "select a/{o3}b", "select a@{o3}b", "select a{o2}/*{t1}*/b", "select a{o2}--{t1}\n+b", "select a {r60!+}{o3}b", "select a {r61!@}{o3}b", "select a {r63!<}{o1}b", "select a{o1}.{o1}b", "select f(a{o2}b)", "select a[1{o2}2]", "select 1{o3}2", "select a.{o2}", "select 'a'{o2}'b'", "select $1{o2}$2", "select \"a\"{o2}\"b\"", "select a operator({o3}) b", "select a operator(s.{o2}) b", "select a {o2} any (b)", "select a order by b using {o3}", "create operator {o3} (procedure = f)", "select ~{o3}a", "select #{o3}a", "select &{o3}a", "select |{o3}a", "select `{o3}a", "select ?{o3}a", "select ^{o3}a", "select %{o3}a", "select a{o1}{u1}{o1}b", "select a{o2}{s1}{o2}b",
    "select {p3}\na", "select a{p4}\n b", "select a {r60!+}{p2}b", "select 1{p2}1\n", "select 'a'{p2} 'b'\n", "select a {p2}{c1}{p1}b", "create operator {p2} (procedure = f)\n",
];

/// numbers and parameters
pub const NUMS: &[&str] = &[
    "select {n4}", "select {n2} {n2}", "select 0x{n3}", "select 0X{h2}_{n1}", "select 0b{n3}", "select 0B{n2}", "select 0o{n3}", "select 0O{n2}", "select 1_{n3}", "select 1e{n3}", "select 1.{n3}", "select .{n3}", "select 1..{n2}", "select {d1!}{d1!}e{n2}", "select {d1!}.{d1!}{n2}", "select 1.5e{n2}", "select 0{n3}", "select 00{n2}", "select 1{u2}", "select 1.{u2}", "select 1e{u2}", "select 0x{u2}", "select 0x1{u2}", "select .1{u1}", "select 1.5{u2}", "select 1e5{u2}", "select 1e+5{u1}",
    "select 214748364{n1}{n1}", "select 2147483{d3!}", "select -2147483648", "select 0x7fffff{h2!}", "select 0x8000000{h1!}", "select 0x00007fffffff{h1!}", "select 0x{h1!}fffffff", "select 0o1777777777{d1!}", "select 0o2000000000{d1!}", "select 0b{r30!1}{n2}", "select 0b1{r30!0}{n1}", "select 9999999999{n1}", "select 2_147_483_64{n1}", "select 1__{n1}", "select {d1!}_{d1!}_{n1}", "select 0000000000214748364{d1!}", "select 18446744073709551615{d1!}", "select 1844674407370955161{d2!}", "select 42949672{d2!}", "select 429496729{d1!}", "select 0xffffffff{h1!}", "select 0x1_0000_000{h1!}", "select {r30!9}{d1!}",
    "select ${n3}", "select $1{u2}", "select $214748364{n1}", "select $2147483648", "select $99999999999{n1}", "select $0{n2}", "select $00000000002147483647{n1}", "select $1_{n1}", "select f(a, $1{o1}$2)", "select $42949672{d2!}", "select $429496729{d2!}",
    "create table t (a numeric({d1!},{n2}))", "select a limit {n3}", "fetch {n2} from c", "select a[{n2}:{n2}]", "select interval(1{n1}) '1'", "set a = -{n3}", "select float(2{n1})", "create sequence s start {n3}", "select {n2}.{n2}", "select a.{n2}", "select 1 {d1!}{u1}",
    "select {N3}", "select {N2} {N1}", "select 1{N3}", "select 0x{N2}", "select 1.{N3}", "select .{N2}", "select 1e{N2}", "select a[{N2}:{N1}]", "select {p2}{N2}", "select ${N3}", "select -{N2}", "select 1_{N2}",
];

/// quoted text, escapes, dollar quotes, comments: where they begin and end
pub const QUOTES: &[&str] = &[
    "select '{q4}'", "select 'a{u2}'", "select '{q2}' 'b{q2}'", "select e'{q4}'", "select E'a\\{u2}b'", "select e'\\{q3}'", "select e'\\\\{q2}'", "select n'{q3}'", "select b'{q3}'", "select x'{q3}'", "select u&'{q3}'", "select \"{q4}\"", "select u&\"{q3}\"", "select \"a{u2}\"", "select '{u3}", "select \"{u2}", "select {q5}", "select a{q4}",
    "select 'a'{s2}'b'", "select 'a'{t3}'b'", "select 'a'--{u1}\n'b'", "select e'a'{s2}'\\{q1}'", "select b'0'{s2}'1'", "select x'0'{s2}'1'", "select u&'a'{s2}'b'", "select n'a'{s2}'b'", "select 'a'\n'b'{s2}'c'", "select \"a\"{s2}\"b\"", "select 'a' {q2}", "select 'a'\n{q3}",
    "select e'\\x{h2!}{q1}'", "select e'\\{d3!}'", "select e'\\u{h4!}'", "select e'\\u{h3!}{u1}'", "select e'\\U000{h1!}{h1!}041'", "select e'\\U{h8!}'", "select e'\\ud8{h2!}\\u{h4!}'", "select e'\\uD83D\\uDE0{h1!}{q1}'", "select e'\\uD83D{q2}'", "select e'\\x8{h1!}\\x{h2!}'", "select e'\\3{d2!}'", "select e'\\{u2}'",
    "select ${u3}", "select $${u3}$$", "select $${q3}", "select $a${u2}$a$", "select $a$$b${q2}$a$", "select $a$ ${w1}$ ${w1}${w1}$", "select $ab$ $a{u1}$ab{u1}$ab$", "select $A${q1}$a$ $A$", "select $\u{e9}$ {u2}$\u{e9}$", "select a$b$ {q2}", "select $1$ {q2}", "select $_1${q1}$_1$", "select $$ ' \" /* {q2}$$", "select $a$ $${u1}$$ $a$", "select $a${q1}$a$ $a${q1}$a$",
    "select /{t4}1", "select /*{t3}*/1", "select /*{t2}*/{t2}1", "select /*/*{t2}*/{t2}*/1", "select /*{u3}*/1", "select --{u3}\n1", "select --{t3}\n1", "select a--{t2}\n,b", "select 1 --{u2}", "select 1 /*{u2}", "select /*' {u1} */ '/*{u1}*/'", "select '--{u1}\n'", "select \"/*{u1}\", 1 -- '{u1}", "select /***{t2}**/1", "select -{t2}-\n{t1}1",
    "do {q4}", "do $${u2}$$", "comment on table t is {q3}", "create function f() returns int as $f${u2}$f$ language sql", "select 'a' as \"{q2}\"", "select \"{q2}\".\"{q2}\"",
    "select {k2}{j1}", "select '{j3}", "select 'a{j2}b'", "select e'{j3}", "select e'{j3}'", "select \"{j3}\"", "select $${j3}", "select $a${j3}$a$", "select b'{j2}'", "select x'{j2}'", "select u&'{j2}'", "select u&\"{j3}\"", "select n'{j2}'", "select /*{j3}*/ 1", "select --{j2}\n1", "select 'a'{c3}'b'", "select e'a'{c2}'b'{c1}'c'", "select b'0'{c2}'1'", "select x'0'{c2}'1'", "select u&'a'{c2}'b'", "select n'a'{c2}'b'", "select 'a'{c2}e'b'", "select \"a\"{c2}\"b\"", "select $$a$${c2}'b'", "select '{j1}'{c2}'{j1}'",
];

/// long and deep ones
pub const LONG: &[&str] = &[
    "{r70000! }select{t1}1", "/*{r66000!a}*/ select{t1}1 --{u1}", "select '{r66000!a}{u1}' ,{t1} b", "select 1{R300:,1}{t1}", "select {r300!(}a{t1}{r300!)}", "select 1 + {R70:a*b-c}{o1}d", "{R260:/*}{t1}{R260:*/}select 1", "{r300!;}{t1}select 1;", "{R60:select 1;\n}{t1}select 2",
    "{r300!a}{t1}", "select {r62!a}{m2}{w1}", "select {r61!a}{m2}{m2}", "select {r61!a}{m3}", "select {r62!a}{m4} b", "select \"{r62!a}{m2}{u1}\"", "select \"{r300!a}{u1}\"", "select {r62!A}{m3} as \"{r61!b}{m4}\"", "select '{R40:''}{q2}'", "select e'{R40:\\\\}{q2}'", "select $abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz$ $abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxy{w1}$ {q1}$abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz$",
    "select {r300!1}{n1}", "select 0.{r70!0}{n1}", "select 0x{r70!f}{n1}", "select 0b{r70!1}{n1}", "select $0{r70!0}{d1}", "select 1 {R40:/**/}{t1}+ 2", "select 1 {R40:--\n}{t1}+ 2", "select not{R40:/**/}{t1}in", "select a{R40:.a}{o1}", "select {r300! }{t1}", "{r66000! }select {u1}1 1", "{r66000! }'{u1}",
    "select {r300!@}", "{R30:select (}1{t1}{r30!)}", "select case when a then b {R30:when a then b }{t1}end", "select {R30:case when a then }{t1}b{R30: end}", "select a {R40:and b }{t1}", "select {R40:not }{t1}a", "select {R40:- }{t1}a", "select a{R30:[1]}{o1}", "select * from a {R20:join b on c }{t1}", "select 1 {R20:union select 1 }{t1}", "with a as (select 1){R20:, b as (select 2)}{t1}select 3",
];

pub fn set(i: usize) -> &'static [&'static str] {
    match i {
        0 => LEX,
        1 => TRIVIA,
        2 => STMT,
        3 => WORDS,
        4 => LOOK,
        5 => OPS,
        6 => NUMS,
        7 => QUOTES,
        8 => LONG,
        _ => &[],
    }
}
