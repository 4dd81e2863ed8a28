//! The expression forms that the checks of C09, C10, C11 and C19 enumerate.

/// Calls `$visit!(name, [occurrences of a, b, c], expression, |x, y, z| same arithmetic on scalars)` for every form.
/// `$pa`, `$pb`, `$pc` make owned operands, `$ra`, `$rb`, `$rc` are references to operands, `$s` and `$t`
/// scalars and `$x`, `$y`, `$z` the names of the operand elements in the scalar arithmetic.
#[macro_export]
macro_rules! tree_forms {
    (one, $visit:ident, $pa:ident, $ra:ident, $s:ident, $t:ident, $x:ident, $y:ident, $z:ident) => {
        $visit!("s*A", [1, 0, 0], $s * $pa(), |$x, $y, $z| $s * $x);
        $visit!("A*s", [1, 0, 0], $pa() * $s, |$x, $y, $z| $x * $s);
        $visit!("s*&A", [1, 0, 0], $s * $ra, |$x, $y, $z| $s * $x);
        $visit!("&A*s", [1, 0, 0], $ra * $s, |$x, $y, $z| $x * $s);
        $visit!("s*(t*A)", [1, 0, 0], $s * ($t * $pa()), |$x, $y, $z| $s * ($t * $x));
        $visit!("(&A*s)*t", [1, 0, 0], ($ra * $s) * $t, |$x, $y, $z| ($x * $s) * $t);
        $visit!("s*&(A*t)", [1, 0, 0], $s * &($pa() * $t), |$x, $y, $z| $s * ($x * $t));
        $visit!("&A+&A", [2, 0, 0], $ra + $ra, |$x, $y, $z| $x + $x);
        $visit!("s*&A+&A", [2, 0, 0], $s * $ra + $ra, |$x, $y, $z| $s * $x + $x);
        $visit!("(&A+s*&A)*t+&A", [3, 0, 0], ($ra + $s * $ra) * $t + $ra, |$x, $y, $z| ($x + $s * $x) * $t + $x);
    };
    (two, $visit:ident, $pa:ident, $pb:ident, $ra:ident, $rb:ident, $s:ident, $t:ident, $x:ident, $y:ident, $z:ident) => {
        $visit!("A+B", [1, 1, 0], $pa() + $pb(), |$x, $y, $z| $x + $y);
        $visit!("&A+B", [1, 1, 0], $ra + $pb(), |$x, $y, $z| $x + $y);
        $visit!("A+&B", [1, 1, 0], $pa() + $rb, |$x, $y, $z| $x + $y);
        $visit!("&A+&B", [1, 1, 0], $ra + $rb, |$x, $y, $z| $x + $y);
        $visit!("s*A+B", [1, 1, 0], $s * $pa() + $pb(), |$x, $y, $z| $s * $x + $y);
        $visit!("&A+B*s", [1, 1, 0], $ra + $pb() * $s, |$x, $y, $z| $x + $y * $s);
        $visit!("s*A+t*&B", [1, 1, 0], $s * $pa() + $t * $rb, |$x, $y, $z| $s * $x + $t * $y);
        $visit!("&(s*&A)+&(&B*t)", [1, 1, 0], &($s * $ra) + &($rb * $t), |$x, $y, $z| $s * $x + $y * $t);
        $visit!("(A+B)*s", [1, 1, 0], ($pa() + $pb()) * $s, |$x, $y, $z| ($x + $y) * $s);
        $visit!("s*(&A+&B)", [1, 1, 0], $s * ($ra + $rb), |$x, $y, $z| $s * ($x + $y));
        $visit!("s*&(A+&B)", [1, 1, 0], $s * &($pa() + $rb), |$x, $y, $z| $s * ($x + $y));
        $visit!("(A+&B)*s+t*&A", [2, 1, 0], ($pa() + $rb) * $s + $t * $ra, |$x, $y, $z| ($x + $y) * $s + $t * $x);
    };
    (three, $visit:ident, $pa:ident, $pb:ident, $pc:ident, $ra:ident, $rb:ident, $rc:ident, $s:ident, $t:ident, $x:ident, $y:ident, $z:ident) => {
        $visit!("(A+B)+C", [1, 1, 1], ($pa() + $pb()) + $pc(), |$x, $y, $z| ($x + $y) + $z);
        $visit!("A+(B+C)", [1, 1, 1], $pa() + ($pb() + $pc()), |$x, $y, $z| $x + ($y + $z));
        $visit!("&(&A+&B)+&C", [1, 1, 1], &($ra + $rb) + $rc, |$x, $y, $z| ($x + $y) + $z);
        $visit!("&A+&(&B+C)", [1, 1, 1], $ra + &($rb + $pc()), |$x, $y, $z| $x + ($y + $z));
        $visit!("s*(A+t*(&B+s*C))", [1, 1, 1], $s * ($pa() + $t * ($rb + $s * $pc())), |$x, $y, $z| $s * ($x + $t * ($y + $s * $z)));
        $visit!("(s*&A+&B)*t+&C", [1, 1, 1], ($s * $ra + $rb) * $t + $rc, |$x, $y, $z| ($s * $x + $y) * $t + $z);
        $visit!("s*A+(t*B+C*s)", [1, 1, 1], $s * $pa() + ($t * $pb() + $pc() * $s), |$x, $y, $z| $s * $x + ($t * $y + $z * $s));
        $visit!("((&A+&B)+(&B+&C))+(&C+&A)", [2, 2, 2], (($ra + $rb) + ($rb + $rc)) + ($rc + $ra), |$x, $y, $z| (($x + $y) + ($y + $z)) + ($z + $x));
    };
}

/// Fixes the argument types of a closure.
pub fn arith<T, F: Fn(T, T, T) -> T>(f: F) -> F {
    f
}
