//! Text that is, nearly is, or is not at all SQL.
use super::sqlm::State;
use crate::rng::Rng;

const TOKENS: &[&str] = &[
    "SELECT", "FROM", "WHERE", "INSERT", "INTO", "VALUES", "UPDATE", "SET", "DELETE", "CREATE", "TABLE", "UNIQUE", "INDEX", "ON", "ALTER", "ADD",
    "COLUMN", "DROP", "CONSTRAINT", "PRIMARY", "KEY", "FOREIGN", "REFERENCES", "NOT", "NULL", "DEFAULT", "AND", "OR", "IN", "BETWEEN", "LIKE", "IS",
    "EXISTS", "CASE", "WHEN", "THEN", "ELSE", "END", "JOIN", "LEFT", "RIGHT", "FULL", "CROSS", "INNER", "OUTER", "GROUP", "BY", "HAVING", "ORDER",
    "LIMIT", "OFFSET", "DISTINCT", "AS", "WITH", "RECURSIVE", "ASC", "DESC", "BEGIN", "COMMIT", "ROLLBACK", "IF", "(", ")", ",", ";", "*", "+", "-",
    "/", "%", "=", "<>", "<", ">", "<=", ">=", ".", "'a'", "'", "\"", "1", "0", "-1", "1.5", "1e400", "99999999999999999999", "t0", "t1", "c1", "c2",
    "id", "row_id", "INT", "BIGINT", "TEXT", "BOOLEAN", "DOUBLE", "COUNT(*)", "SUM(id)", "ABS(-1)", "UPPER('x')", "LENGTH(c1)", "TRUE", "FALSE", "||",
    "--", "/*", "*/", "\u{0}", "é", "日", "\u{1F600}", "\\", "\n", "\t", "?", "$1", "@", "`", "[", "]", "{", "}", "!", "!=", "==", "::",
];

/// What LIKE is asked for: wildcards and escapes in any order.
fn pattern(r: &mut Rng) -> String {
    let n = r.usize(9);
    (0..n).map(|_| *r.pick(&["%", "%", "_", "\\", "a", "b", "z", "0", "x", "é", "日"])).collect()
}

/// Text of which patterns may match a part.
fn word(r: &mut Rng) -> String {
    let n = r.usize(12);
    (0..n).map(|_| *r.pick(&["a", "b", "z", "0", "x", "%", "_", "\\", "é", "日"])).collect()
}

/// Expressions with nothing wrong in their syntax.
fn expr(r: &mut Rng, cols: &[String], depth: usize) -> String {
    if depth == 0 || r.chance(250) {
        return match r.usize(9) {
            0 | 1 | 2 => r.pick(cols).clone(),
            3 => r.range(-3, 20).to_string(),
            4 => (*r.pick(&["9223372036854775807", "2147483647", "-2147483648", "4294967296", "1e308", "0", "0.0"])).to_string(),
            5 => "'abc'".into(),
            6 => "NULL".into(),
            7 => "TRUE".into(),
            _ => "1.5".into(),
        };
    }
    let d = depth - 1;
    match r.usize(19) {
        // Of text.
        16 => {
            let of = match r.usize(3) {
                0 => format!("'{}'", word(r)),
                1 => expr(r, cols, d),
                _ => r.pick(cols).clone(),
            };
            format!("{of} {}LIKE '{}'", if r.chance(200) { "NOT " } else { "" }, pattern(r))
        }
        // Any number of arguments.
        17 => {
            let f = *r.pick(&["COALESCE", "NULLIF", "CONCAT", "LTRIM", "RTRIM", "LENGTH", "CHAR_LENGTH", "UPPER", "ROUND", "ABS", "CEILING", "SQRT", "MAX", "AVG"]);
            let n = r.usize(4);
            let a: Vec<String> = (0..n).map(|_| if r.chance(250) { format!("'{}'", word(r)) } else { expr(r, cols, d) }).collect();
            format!("{f}({})", a.join(", "))
        }
        18 => {
            let t = *r.pick(&["INT", "BIGINT", "UINT", "BIGUINT", "FLOAT", "DOUBLE", "TEXT", "BOOLEAN", "BLOB", "DATE", "DATETIME", "NOPE"]);
            format!("CAST({} AS {t})", if r.chance(300) { format!("'{}'", word(r)) } else { expr(r, cols, d) })
        }
        0..=3 => {
            let op = *r.pick(&["+", "-", "*", "/", "%"]);
            format!("({} {op} {})", expr(r, cols, d), expr(r, cols, d))
        }
        4..=6 => {
            let op = *r.pick(&["=", "<>", "<", "<=", ">", ">=", "LIKE"]);
            format!("({} {op} {})", expr(r, cols, d), expr(r, cols, d))
        }
        7 => format!("({} AND {})", expr(r, cols, d), expr(r, cols, d)),
        8 => format!("({} OR {})", expr(r, cols, d), expr(r, cols, d)),
        9 => format!("NOT ({})", expr(r, cols, d)),
        10 => format!("{} IN ({}, {})", expr(r, cols, d), expr(r, cols, 0), expr(r, cols, 0)),
        11 => format!("{} BETWEEN {} AND {}", expr(r, cols, d), expr(r, cols, 0), expr(r, cols, 0)),
        12 => format!("CASE WHEN {} THEN {} ELSE {} END", expr(r, cols, d), expr(r, cols, d), expr(r, cols, d)),
        13 => {
            let f = *r.pick(&["ABS", "SQRT", "UPPER", "LOWER", "LENGTH", "ROUND", "CEIL", "FLOOR", "COALESCE", "NULLIF", "CAST", "CONCAT", "NOPE", "COUNT", "SUM", "MIN"]);
            format!("{f}({})", expr(r, cols, d))
        }
        14 => format!("-{}", expr(r, cols, d)),
        _ => format!("{} IS {}NULL", expr(r, cols, d), if r.chance(500) { "NOT " } else { "" }),
    }
}

pub fn text(r: &mut Rng, s: &State) -> String {
    let tables: Vec<String> = s.tables.keys().cloned().collect();
    let t = if tables.is_empty() { "t0".to_string() } else { r.pick(&tables).clone() };
    let mut cols: Vec<String> = s.tables.get(&t).map(|t| t.cols.iter().map(|c| c.name.clone()).collect()).unwrap_or_default();
    if cols.is_empty() {
        cols.push("id".into());
    }
    match r.usize(20) {
        // Tokens in any order.
        0..=3 => {
            let n = 1 + r.usize(14);
            (0..n).map(|_| *r.pick(TOKENS)).collect::<Vec<_>>().join(" ")
        }
        // A beginning, then tokens.
        4 | 5 => {
            let b = *r.pick(&["SELECT * FROM t0 WHERE", "INSERT INTO t0 VALUES", "UPDATE t0 SET", "CREATE TABLE t5 (", "ALTER TABLE t0", "DELETE FROM t0 WHERE", "SELECT", "SELECT c1 FROM t0 ORDER BY", "DROP TABLE"]);
            let n = r.usize(8);
            let mut v = vec![b];
            for _ in 0..n {
                v.push(r.pick(TOKENS));
            }
            // Whatever it turns out to be, it must not be a statement that changes something.
            format!("{} )", v.join(" "))
        }
        // Bytes.
        6 => {
            let n = r.usize(60);
            (0..n).map(|_| char::from_u32(r.below(0x250) as u32).unwrap_or('x')).collect()
        }
        // Queries over real columns with any expression.
        7..=12 => {
            let d = 1 + r.usize(4);
            let e = expr(r, &cols, d);
            match r.usize(5) {
                0 => format!("SELECT {e} FROM {t}"),
                1 => format!("SELECT * FROM {t} WHERE {e}"),
                2 => format!("SELECT {} FROM {t} ORDER BY {e}", cols[0]),
                3 => format!("SELECT {e}, COUNT(*) FROM {t} GROUP BY {e}"),
                _ => format!("SELECT a.{c} FROM {t} AS a JOIN {t} AS b ON {e}", c = cols[0]),
            }
        }
        // Deep nesting.
        13 => {
            let n = *r.pick(&[10usize, 50, 200, 1000, 3000]);
            match r.usize(4) {
                0 => format!("SELECT {}1{} FROM {t}", "(".repeat(n), ")".repeat(n)),
                1 => format!("SELECT {} FROM {t} WHERE {} 1 = 1", cols[0], "NOT ".repeat(n)),
                2 => format!("SELECT {} FROM {t} WHERE {}", cols[0], vec!["1 = 1"; n].join(" AND ")),
                _ => format!("SELECT {}1 FROM {t}", "- ".repeat(n)),
            }
        }
        // Features the engine may not have.
        14 => (*r.pick(&[
            "SELECT * FROM (SELECT * FROM t0) AS q",
            "WITH q AS (SELECT * FROM t0) SELECT * FROM q",
            "WITH RECURSIVE q AS (SELECT 1) SELECT * FROM q",
            "SELECT * FROM t0 WHERE id IN (SELECT id FROM t1)",
            "SELECT * FROM t0 WHERE EXISTS (SELECT 1 FROM t1)",
            "SELECT (SELECT COUNT(*) FROM t1) FROM t0",
            "SELECT * FROM t0 LEFT JOIN t1 ON t0.id = t1.id",
            "SELECT * FROM t0 RIGHT JOIN t1 ON t0.id = t1.id",
            "SELECT * FROM t0 FULL JOIN t1 ON t0.id = t1.id",
            "SELECT * FROM t0 CROSS JOIN t1",
            "SELECT * FROM t0, t1",
            "SELECT COUNT(DISTINCT id) FROM t0",
            "SELECT * FROM t0 ORDER BY 1",
            "SELECT * FROM t0 LIMIT 0",
            "SELECT * FROM t0 LIMIT 99999999999999999999",
            "SELECT * FROM t0 LIMIT 18446744073709551615 OFFSET 18446744073709551615",
            "SELECT * FROM t0 LIMIT -1",
            "SELECT * FROM t0 OFFSET 3",
            "SELECT SUM(c1), AVG(c1), MIN(c1), MAX(c1) FROM t0",
            "SELECT id, id, id FROM t0",
            "SELECT t0.* FROM t0",
            "SELECT * FROM t0 AS t0 JOIN t0 ON 1 = 1",
            "SELECT id FROM t0 GROUP BY id HAVING COUNT(*) > 0",
            "SELECT 1 / 0",
            "SELECT 1 / 0 FROM t0",
            "SELECT 1 % 0 FROM t0",
            "SELECT id FROM t0 WHERE 1 / 0 = 1",
            "BEGIN",
            "COMMIT",
            "ROLLBACK",
            "",
            " ",
            ";",
            ";;",
            "SELECT",
            "SELECT FROM t0",
            "CREATE TABLE",
            "CREATE TABLE x",
            "CREATE TABLE x ()",
            "CREATE TABLE x (a INT, a INT)",
            "CREATE TABLE x (a NOPE)",
            "CREATE TABLE x (a INT, PRIMARY KEY (b))",
            "CREATE TABLE x (a INT, UNIQUE ())",
            "CREATE TABLE x (row_id INT)",
            "CREATE UNIQUE INDEX ix ON t0 (nope)",
            "CREATE UNIQUE INDEX ix ON nothere (id)",
            "CREATE INDEX ix ON t0 (id)",
            "DROP INDEX ix",
            "ALTER TABLE nothere ADD COLUMN a INT",
            "ALTER TABLE t0 DROP COLUMN row_id",
            "INSERT INTO t0 (row_id) VALUES (1)",
            "INSERT INTO nothere VALUES (1)",
            "INSERT INTO t0 (nope) VALUES (1)",
            "UPDATE t0 SET row_id = 1 WHERE 1 = 0",
            "UPDATE t0 SET nope = 1",
            "UPDATE nothere SET a = 1",
            "DELETE FROM nothere",
            "DELETE FROM t0 WHERE nope = 1",
            "SELECT * FROM t0 WHERE id = 'text'",
            "SELECT * FROM t0 WHERE id + 'text' = 3",
            "SELECT * FROM t0 WHERE 'a'",
            "SELECT * FROM t0 WHERE 1",
            "SELECT * FROM t0 WHERE NULL",
            "SELECT * FROM t0 -- comment",
            "SELECT 'unterminated FROM t0",
        ]))
        .to_string(),
        // A large statement.
        15 => match r.usize(3) {
            0 => format!("SELECT {} FROM {t}", vec![cols[0].as_str(); 300].join(", ")),
            1 => format!("SELECT {} FROM {t} WHERE {} IN ({})", cols[0], cols[0], (0..500).map(|i| i.to_string()).collect::<Vec<_>>().join(", ")),
            _ => format!("SELECT '{}' FROM {t}", "x".repeat(20000)),
        },
        // One mutation of a sound query.
        _ => {
            let base = format!("SELECT {} FROM {t} WHERE {} = 3 AND {} < 5 ORDER BY {}", cols.join(", "), cols[0], r.pick(&cols), cols[0]);
            let mut c: Vec<char> = base.chars().collect();
            for _ in 0..1 + r.usize(3) {
                let i = r.usize(c.len());
                match r.usize(3) {
                    0 => {
                        c.remove(i);
                    }
                    1 => c.insert(i, *r.pick(&['\'', '(', ')', ',', '*', ' ', '.', '0', '"', ';'])),
                    _ => c[i] = *r.pick(&['\'', '(', ')', ',', '*', ' ', '.', '9', '=', '<']),
                }
            }
            c.into_iter().collect()
        }
    }
}
