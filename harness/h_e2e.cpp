// Script templates per property.  $a is a symbolic real constant, %n a symbolic integer constant, {u|v|w} a symbolic
// choice between script fragments.
#include "e2e.h"
using namespace std::string_literals;
namespace {
struct T { char const* name; std::string text; int lo = -6, hi = 6; int options = 0; };
std::string const R = "{<|<=|=|>=|>|distinct}";
std::string const X = "(set-logic QF_LRA)(declare-fun x () Real)";
std::string const XY = X + "(declare-fun y () Real)";
std::string const XYZ = XY + "(declare-fun z () Real)";
std::string const P = "(declare-fun p () Bool)(declare-fun q () Bool)";
std::string const E = "(check-sat)(get-model)";
std::string A(std::string const& f) { return "(assert " + f + ")"; }

std::vector<T> lra()
{
    std::vector<T> t;
    // one variable: every combination of relations and every order of the constants, ties included
    t.push_back({"one_var3", X + A("(" + R + " x $a)") + A("(" + R + " x $b)") + A("(" + R + " x $c)") + E});
    t.push_back({"one_var4", X + A("({<=|<} x $a)") + A("({>=|>} x $b)") + A("(distinct x $c)") + A("({distinct|=} x $d)") + E});
    t.push_back({"one_var_neg", X + A("(" + R + " (* (- 2) x) $a)") + A("(" + R + " (* 3 x) $b)") + A("(" + R + " (- $c x) 0)") + E});
    t.push_back({"one_var_cl", X + P + A("(or p (" + R + " x $a))") + A("(or (not p) (" + R + " x $b))") + A("(" + R + " x $c)") + E});
    t.push_back({"excluded", X + A("({<|<=} $a x)") + A("({<|<=} x $b)") + A("(and (distinct x 0) (distinct x 1) (distinct x (- 1)))") + A("(distinct x $c)") + E, -2, 2});
    t.push_back({"excluded2", X + A("({<|<=|>|>=} x $a)") + A("(and (distinct x 0) (distinct x 1) (distinct x (- 1)) (distinct x 2) (distinct x (- 2)))") + A("(distinct x $b)") + E, -3, 3});
    t.push_back({"excluded3", X + A("(distinct x $a)") + A("(distinct x $b)") + A("(distinct x $c)") + A("(distinct x 0)") + A("(distinct x 1)") + E, -2, 2});
    t.push_back({"tiny", X + A("(< $a x)") + A("(< x (+ $a (/ 1 3)))") + A("(distinct x (+ $a (/ 1 6)))") + A("(distinct x $b)") + E, -2, 2});
    // two variables: Fourier-Motzkin with ties and strictness
    t.push_back({"fm2", XY + A("(" + R + " (+ x y) $a)") + A("({<|<=|=|>=|>} (- x y) $b)") + A("({<|<=|>=|>} y $c)") + E});
    t.push_back({"fm2b", XY + A("({<=|<} x y)") + A("({<=|<} y (+ x $a))") + A("({distinct|=} x (+ y $b))") + E});
    t.push_back({"fm2c", XY + A("({<=|<|=} (+ (* 2 x) y) $a)") + A("({>=|>|=} (+ (* 2 x) y) $b)") + A("({distinct|=} (+ x (* (/ 1 2) y)) $c)") + E});
    t.push_back({"eq_chain", XYZ + A("(= x (+ y $a))") + A("(= y (+ z $b))") + A("(" + R + " x (+ z $c))") + E});
    t.push_back({"cycle3", XYZ + A("({<=|<} x (+ y $a))") + A("({<=|<} y (+ z $b))") + A("({<=|<} z (+ x $c))") + A("({distinct|<=} x y)") + E});
    t.push_back({"diseq_pair", XY + A("(<= $a x)") + A("(<= x $b)") + A("(<= $a y)") + A("(<= y $b)") + A("(distinct x y)") + A("(distinct (+ x y) $c)") + E});
    t.push_back({"diseq_fm", XY + A("({<=|<} (+ x y) $a)") + A("({<=|<} (- (+ x y)) $b)") + A("(distinct (+ x y) $c)") + E});
    t.push_back({"diseq_3", XYZ + A("(distinct (+ x y z) $a)") + A("(= (+ x y) $b)") + A("({=|<=} z $c)") + A("(>= z $d)") + E});
    t.push_back({"three_by_three", XYZ + A("({<=|<} (+ x y) $a)") + A("({<=|<} (+ y z) $b)") + A("({<=|<} (+ x z) $c)") + A("({>=|>} (+ x y z) $d)") + E});
    t.push_back({"scaled", XY + A("({<=|<} (- (* 3 x) (* 2 y)) $a)") + A("({>=|>} (- (* 6 x) (* 4 y)) $b)") + A("({=|distinct|<=} (- (* (- 3) x) (* (- 2) y)) $c)") + E});
    t.push_back({"same_scaled", XY + A("({<=|<|=} (- x y) $a)") + A("(not ({<=|<|=} (- (* 2 x) (* 2 y)) $b))") + A("({<=|<|=} (- y x) $c)") + E});
    // Boolean structure: backtracking over bounds
    t.push_back({"switch", X + P + A("(or (and p (<= x $a)) (and (not p) (>= x $b)))") + A("(or (and q (> x $c)) (and (not q) (< x $a)))") + A("(distinct x $d)") + E});
    t.push_back({"case_split", XY + A("(or (< x $a) (> x $b))") + A("(or (< y $a) (> y $b))") + A("({=|<=|>=} (+ x y) $c)") + A("(or (= x y) (< y x))") + E});
    t.push_back({"grid", X + A("(or (= x $a) (= x $b) (= x $c))") + A("({<|>=} x $d)") + A("(or (distinct x $a) (distinct x $b))") + E});
    t.push_back({"pick2", XY + A("(or (= x 0) (= x 1) (= x 2))") + A("(or (= y 0) (= y 1) (= y 2))") + A("({=|<|>} (+ x y) $a)") + A("({distinct|=} x y)") + E, -2, 6});
    t.push_back({"xor_bounds", XY + A("(xor (<= x $a) (<= y $b))") + A("(xor (<= x $b) (<= y $a))") + A("({=|<} x y)") + E});
    t.push_back({"imply_chain", XY + P + A("(=> p (< x $a))") + A("(=> (not p) (> x $b))") + A("(=> (< x $a) (= y x))") + A("(=> q (> y $c))") + A("(or q (< y $d))") + E});
    t.push_back({"ite_val", XY + P + A("(= x (ite p $a $b))") + A("(= y (ite (< x $c) x (+ x 1)))") + A("({<|=|>} y $d)") + E});
    t.push_back({"mul_const", XY + A("(= (* $a 2) (+ x (* 3 y)))") + A("({<=|>} (- x) (* 2 y))") + A("(distinct x $b)") + E});
    t.push_back({"unit_diseq_fm", XY + A("({<=|<} x $a)") + A("({>=|>} x $b)") + A("({<=|<} y x)") + A("({>=|>} y x)") + A("(distinct y $c)") + E});
    t.push_back({"clash", XY + A("(= (+ x y) $a)") + A("(= (- x y) $b)") + A("(" + R + " x $c)") + A("({distinct|=} y $d)") + E});
    t.push_back({"redundant_atoms", X + A("(or (<= x $a) (<= x $b))") + A("(or (>= x $c) (> x $a))") + A("(or (not (<= x $b)) (= x $c))") + E});
    return t;
}
std::vector<T> terms()
{
    std::vector<T> t;
    std::string const H = XY + P + "(declare-fun r () Bool)" + A("{p|(not p)}") + A("{q|(not q)}");
    std::string const L = "{p|(not p)|q|(not q)|true|false|r|(not r)}";
    std::string const G = "{p|(not p)|q|(and p q)|(or q r)|(not (and p r))}";
    std::string const op2 = "{and|or|xor|=>|=|distinct}", op3 = "{and|or}";
    t.push_back({"bool2", H + A("({not |(= r |}(" + op2 + " " + L + " " + L + "))") + E});
    t[0].text = H + A("{#n|(not (" + op2 + " " + L + " " + L + "))|(= r (" + op2 + " " + L + " " + L + "))}") + E;
    t.push_back({"bool3", H + A("{r|(not r)}") + A("(" + op3 + " " + L + " " + L + " " + L + ")") + E});
    t.push_back({"nested1", H + A("{r|(not r)}") + A("(" + op2 + " (" + op2 + " " + G + " {q|(not q)|r}) " + G + ")") + E});
    t.push_back({"nested2", H + A("{r|(not r)}") + A("(not (" + op2 + " {p|q} (not (" + op3 + " {(not p)|q} {r|p} {(not r)|q}))))") + E});
    t.push_back({"ite_bool", H + A("{r|(not r)}") + A("{#o|(ite|(not (ite} {p|(not p)|true|false} {q|(not q)|true|false|r|p|(not p)} {q|(not q)|true|false|(not r)|p|(not p)}){#o||)}") + E});
    t.push_back({"ite_nest", H + A("{r|(not r)}") + A("(= (ite p (ite {q|(not q)} {r|p} {(not r)|true}) (ite {p|(not p)|q} r false)) {q|(not q)|r})") + E});
    t.push_back({"chain", H + A("{r|(not r)}") + A("({distinct|and|or} {p|q} {q|(not p)|r} {(not q)|r|p} {p|r})") + E});
    std::string const V = A("(= x $a)") + A("(= y $b)");
    std::string const arith = "{x|y|(+ x y)|(- x y)|(- x)|(* 2 x)|(+ x x)|(- x x)|(* 0 y)|3|$c|(+ (* 2 x) (* (- 1) y) 1)|(- (- (* 2 x) y) (+ (- 1) $c))|(/ x 2)|(* (+ x 1) 3)|(- (- x y) (- x y))}";
    t.push_back({"cmp", XY + V + A("({<|<=|=|>=|>|distinct} " + arith + " " + arith + ")") + E, -3, 3});
    t.push_back({"cmp_not", XY + V + A("(not ({<|<=|=|>=|>|distinct} " + arith + " {x|y|0|$c|(* 2 (- y x))}))") + E, -3, 3});
    t.push_back({"cmp3", XY + V + A("{#w|(distinct|(not (distinct} {x|y|1} {y|x|(+ x 1)|$c} {x|2|$c|(- y)}){#w||)}") + E, -3, 3});
    t.push_back({"poly", XY + V + A("({=|<=|<} (+ {x|(- y)|$c} {y|(* {2|(- 3)|0|$c} {x|(+ x y)|(- 1 x)})} {1|(- x)|x}) {0|y|$c})") + E, -3, 3});
    t.push_back({"poly_free", XY + A("(= x $a)") + A("({=|<=|<} (- (* 2 (+ x y)) (* {2|3} (- y {x|1|$c}))) {0|y|$c})") + A("({<|>=} y $b)") + E, -3, 3});
    t.push_back({"ite_real", XY + P + V + A("{p|(not p)}") + A("({=|<|<=} (ite {p|(not p)|(< x y)|(= x $c)|true|false|(not (<= x y))} {x|(+ x 1)|$c|2} {y|x|(- x)|$c}) {x|y|$c|(ite p y 1)})") + E, -3, 3});
    t.push_back({"ite_real_nest", XY + P + V + A("{p|(not p)}") + A("(= (+ (ite p x {y|x}) (ite {p|(not p)} 1 {y|2})) (ite {(< x y)|p} (ite (not p) $c x) {(* 2 y)|y}))") + E, -3, 3});
    t.push_back({"ite_both", XY + A("(= x $a)") + A("({=|<|>=} (ite {(<= x y)|(= x y)|(< y 0)} {x|1} {y|(- x)}) {$b|y|(* 2 y)})") + E, -3, 3});
    t.push_back({"lits", XY + P + V + A("(or {(<= x y)|(not (<= x y))|p|(= x y)} {(not (<= x y))|(< y x)|(= y x)|(>= y x)|(not p)} {(< x $c)|false})") + A("(not (and {(<= x y)|(>= y x)|p|true} {(<= x $c)|(not (> x $c))|(= x $c)|(< $c x)}))") + E, -3, 3});
    t.push_back({"eq_bool_arith", XY + P + V + A("{p|(not p)}") + A("({=|xor|=>|distinct} {p|(not p)|(< x y)|(= x y)} {(< x $c)|(>= x $c)|(= x $c)|(distinct y x)})") + E, -3, 3});
    t.push_back({"free_eq", XY + P + A("({=|xor} p ({<|=} x $a))") + A("({=|xor} {p|q} ({<=|=} x $b))") + A("(or q {p|(not p)|(< x $c)})") + E, -3, 3});
    t.push_back({"const_fold", X + P + A("(= x $a)") + A("(= (or (< $a {$b|1}) (= $a $b) {p|(> 1 2)}) {(<= $a $b)|(not (> x $b))|true})") + E, -3, 3});
    t.push_back({"distinct4", XY + V + A("({distinct|(not (distinct} x y $c {(+ x 1)|0|y}){#q|)|}") + E, -3, 3});
    t.back().text = XY + V + A("{(distinct x y $c {(+ x 1)|0|y})|(not (distinct x y $c {(+ x 1)|0|y}))}") + E;
    t.push_back({"coef_sym", XY + V + A("({=|<=|<} (* $c {x|(+ x 1)|(- x y)}) {y|$d|0})") + E, -3, 3});
    t.push_back({"scale", XY + P + V + A("{p|(not p)}") + A("({=|<=|distinct|<} ({* $c|* {2|(/ 1 2)|(- 1)}} {x|(+ x x)|(* $d x)|(- x)|(/ x 2)|(+ x x y)|(* 2 (+ x y))}) {x|(- x)|(* $d x)|(+ x y)|(+ x x)|y})") + E, -3, 3});
    t.push_back({"scale2", XY + P + V + A("{p|(not p)}") + A("({=|<=|distinct} (* {2|(/ 1 2)|(- 1)|(- 2)} (* {2|(/ 1 2)|(- 1)|(- (/ 1 2))} {x|(ite p x y)|(+ x y)|(- x)})) {x|(ite p x y)|(+ y x)|(- y x)|$c})") + E, -3, 3});
    t.push_back({"cancel", XY + P + A("(= x $a)") + A("({=|<|distinct|>=} (+ {x|(* 2 x)|(- x)} {(* $c y)|y|(- y)} {1|$d}) (+ {y|(- y)|(* 2 x)} {x|(- x)|0} {1|$b}))") + A("({<=|=} y $b)") + E, -3, 3});
    t.push_back({"coef_free", XY + A("(= x $b)") + A("({=|<=|<|distinct} (+ (* $c x) (* 2 y)) {0|$d|(* $c x)})") + A("({<=|>} y $a)") + E, -3, 3});
    // more arguments, more variables, longer sums
    std::string const S6 = "(set-logic QF_LRA)" + P + "(declare-fun r () Bool)(declare-fun s () Bool)(declare-fun t () Bool)(declare-fun u () Bool)";
    t.push_back({"nary6", S6 + A("(= ({or|and} p q r {s|(not p)|true} {t|q|false} u) ({or|and} u t s r q p))") + A("{p|(not p)}") + A("{(or q r)|(not q)}") + A("{s|(not s)}") + E});
    t.push_back({"nary8", S6 + A("({or|(not (and} (not p) (not q) r r (and s t) {(not r)|s} (or u {t|p}) (not s){)|))}") + A("({and|(not (or} p q {s|(not s)} u{)|))}") + E});
    t.back().text = S6 + A("{(or (not p) (not q) r r (and s t) (or u p))|(not (and (not p) q r r (or s t) (and u (not t))))|(or (not r) (and s t) r s)}") + A("{(and p q s u)|(not (or p (not q) (not s) u t))|(and (not r) p)}") + A("{(= (and p q r s t) (and t s r q p))|(distinct (or p q r s) (or s r q p))|(xor (or p q r s t u) (or u t s r q))}") + E;
    std::string const Z6 = XYZ + "(declare-fun w () Real)(declare-fun v () Real)(declare-fun u () Real)";
    t.push_back({"poly6", Z6 + A("({=|<=|<} (+ u v w {x|(* 2 z)} y z) (+ z {y|(- y)} x w v {u|$a}))") + A("(= y $b)") + A("(= z {$a|(+ y 1)})") + A("({=|>} (+ x u) {$c|(- v w)})") + E, -3, 3});
    t.push_back({"poly6c", Z6 + A("({=|<=|distinct} (- (+ (* 3 u) (* 2 v) (- w) (* 4 x) y (* 5 z)) (+ (* 5 z) y (* 4 x) (- w) {(* 2 v)|(* 3 v)|v} {(* 3 u)|u|$a})) {0|$b|(- v u)})") + A("(= u $c)") + A("({=|<} v $a)") + E, -3, 3});
    t.push_back({"sum_ite", Z6 + P + A("(= x $a)") + A("(= y $b)") + A("{p|(not p)}") + A("(= (+ (ite p x y) (ite {(not p)|p|(< x y)} x y) (ite (= x y) 1 {0|x})) {(+ x y)|$c|(* 2 x)})") + E, -3, 3});
    return t;
}
std::vector<T> lets()
{
    std::vector<T> t;
    std::string const V = A("(= x $a)") + A("(= y $b)");
    std::string const H = XY + P + V + A("{p|(not p)}") + A("{q|(not q)}");
    std::string const c = "{<|=|>=}";
    t.push_back({"let_parallel", H + A("(let ((x y) (y x)) (" + c + " x (+ y {0|1})))") + E, -3, 3});
    t.push_back({"let_shadow", H + A("(let ((u (+ x 1))) (and (" + c + " u {y|$c}) (let ((u {(- u)|y|(+ u x)})) (" + c + " u {x|$c})) (<= u {$c|(+ y 2)})))") + E, -3, 3});
    t.push_back({"let_after", H + A("(and (let ((x {y|(* 2 x)})) (" + c + " x $c)) (" + c + " x {y|$c}))") + E, -3, 3});
    t.push_back({"let_bool", H + A("(let ((p (not p)) (q {p|(or p q)})) ({and|or} p {q|(not q)} (let ((p q)) (or (not p) q))))") + E, -3, 3});
    t.push_back({"let_nest", H + A("(let ((a (let ((b (+ x y))) (* 2 b))) (b x)) (let ((a b) (b a)) (" + c + " (+ a {b|1}) (- b {$c|x}))))") + E, -3, 3});
    t.push_back({"let_over_asserts", H + A("(let ((x 5)) (" + c + " x {$c|y}))") + A("(" + c + " x {$c|y})") + E, -3, 3});
    t.push_back({"let_share", H + A("(let ((?v (ite p x y)) (?w (< x y))) (or ({and|=} ?w (" + c + " ?v $c)) (not ?w)))") + E, -3, 3});
    t.push_back({"def0", XY + "(define-fun k () Real {3|(+ 1 1)})(define-fun b () Bool {true|(< x y)})" + V + A("({and|or|=} b (" + c + " (+ x k) {y|$c}))") + E, -3, 3});
    t.push_back({"def1", XY + "(define-fun f ((u Real)) Real {(+ u 1)|(* 2 u)|u|7|(- u x)})" + V + A("(" + c + " (f {x|y|(+ x y)|$c}) {(f y)|$d|x})") + E, -3, 3});
    t.push_back({"def2_swap", XY + "(define-fun f ((x Real) (y Real)) Real {(- x y)|(+ x (* 2 y))|(ite (< x y) x (- y))})" + V + A("(" + c + " (f {y|x} {x|(f y x)|$c}) {$d|x})") + E, -3, 3});
    t.push_back({"def_pred", XY + P + "(define-fun lt ((u Real) (v Real)) Bool {(< u v)|(not (<= v u))|(= u v)})" + V + A("({not|and true} (lt {x|y|$c} {y|(+ x 1)|$d}))") + A("({or|=} p (lt y $c))") + E, -3, 3});
    t.push_back({"def_bool", H + "(define-fun g ((u Bool) (v Bool)) Bool {(and u (not v))|(or u v)|(=> u v)|(= u v)|(not u)|(xor v u)})" + A("(g {p|(not p)|(< x y)|true} {q|(not q)|p|(g q p)})") + A("{(g q p)|true|(not (g p q))}") + E, -3, 3});
    t.push_back({"def_nested", XY + "(define-fun f ((u Real)) Real (+ u {1|x}))(define-fun g ((u Real) (v Real)) Real (- (f v) (f {u|(f u)})))" + V + A("(" + c + " (g {x|(f y)} {y|(g x y)}) {$c|(f $c)})") + E, -3, 3});
    t.push_back({"def_ite", XY + P + "(define-fun m ((b Bool) (u Real) (v Real)) Real (ite {b|(not b)|(and b p)} u {v|(+ u v)}))" + V + A("{p|(not p)}") + A("(" + c + " (m {p|(not p)|(< x y)} {x|y} {y|$c}) {$d|x})") + E, -3, 3});
    t.push_back({"def_let", XY + "(define-fun f ((u Real)) Real (let ((x (+ u 1)) (w x)) (+ x {w|u})))" + V + A("(let ((u {y|$c})) (" + c + " (f {u|x}) {u|$d}))") + E, -3, 3});
    t.push_back({"def_shadow_global", XY + P + "(define-fun f ((x Real) (p Bool)) Bool ({and|or} p (< x {y|$c})))" + V + A("{p|(not p)}") + A("({=|distinct} (f {y|(+ x 1)} {p|(not p)|(< x y)}) {(< x y)|p})") + E, -3, 3});
    t.push_back({"def_poly", XY + "(define-fun f ((u Real) (v Real)) Real (+ (* 2 u) (* {(- 2)|3} v) 1))" + A("(= x $a)") + A("(" + c + " (f {x|y} {y|x|(+ y 1)}) {$c|y})") + A("({<=|>} y $b)") + E, -3, 3});
    t.push_back({"decl_const", "(set-logic QF_LRA)(declare-const x Real)(declare-const |a b| Real)(declare-const p Bool)" + A("(= x $a)") + A("({<|=} x |a b|)") + A("(=> p (distinct |a b| $b))") + A("{p|(not p)}") + E, -3, 3});
    t.push_back({"let_clash_def", XY + "(define-fun f ((u Real)) Bool (< u {x|$c}))" + V + A("(let ((x (+ y 1))) (or (f x) (" + c + " x $d)))") + A("{(f y)|(not (f y))}") + E, -3, 3});
    std::string const P5 = XY + P + V + A("{p|(not p)}");
    t.push_back({"let_five", P5 + A("(let ((a x) (b y) (c (+ x 1)) (d (- y)) (e {x|y|2})) (let ((a {b|e}) (b {a|d}) (c {d|c})) (" + c + " (+ a b c) (+ {d|x} e $c))))") + E, -3, 3});
    t.push_back({"let_deep", P5 + A("(let ((x (+ x 1))) (let ((y x) (x y)) (let ((x (+ x {y|1}))) (let ((x {y|(* 2 x)}) (y x)) (let ((z x)) (" + c + " (+ z {x|y}) (+ y $c)))))))") + A("(" + c + " x {$a|y})") + E, -3, 3});
    t.push_back({"let_twice", P5 + A("(and (let ((x {1|y})) (<= x {$c|x})) (let ((y {x|2})) (" + c + " y x)) (let ((x y) (y x)) (" + c + " x {y|$c})))") + E, -3, 3});
    t.push_back({"let_same_value", P5 + A("(let ((a (+ x y))) (let ((b (+ {x|y} y))) (let ((a b) (b {a|x})) (" + c + " (- a b) {0|$c}))))") + E, -3, 3});
    t.push_back({"def_five", XY + P + "(define-fun f ((a Real) (b Real) (c Bool) (d Real) (e Real)) Real (ite c (+ a (* 2 b)) {(- d e)|(- e d)|a}))" + V + A("{p|(not p)}") + A("(" + c + " (f x {y|1} {p|(not p)} {x|$c} y) (f y x {(not p)|(< x y)} {$c|x} {1|x}))") + E, -3, 3});
    t.push_back({"def_chain", XY + P + "(define-fun f ((x Real)) Real (+ x 1))(define-fun g ((y Real) (x Real)) Real (- (f {x|y}) y))(define-fun h ((x Real) (y Real)) Real (g {x|(f y)} {y|(g x y)}))(define-fun k ((u Real) (x Real)) Bool (< (h u x) {(h x u)|u}))" + V + A("{(k x y)|(not (k x y))|(k y $c)|(= (h x $c) (g y x))}") + E, -3, 3});
    t.push_back({"def_names", XY + P + "(define-fun f ((p Real) (x Bool)) Real (ite x p (+ p {y|1})))(define-fun g ((q Bool) (y Real)) Bool ({and|or} q (< y (f y {q|p}))))" + V + A("{p|(not p)}") + A("{q|(not q)}") + A("{(g p x)|(g (not q) (f x q))|(not (g (< x y) y))}") + E, -3, 3});
    t.push_back({"def_twice_used", XY + P + "(define-fun f ((u Bool) (v Real)) Bool (let ((w (+ v {1|x})) (u (not u))) ({and|or} u (< w {$c|y}))))" + V + A("{p|(not p)}") + A("(= (f p x) (f {p|(not p)|(f p y)} {x|y}))") + A("{(f p y)|(not (f (f p x) x))|true}") + E, -3, 3});
    t.push_back({"let_over_def0", XY + "(define-fun k () Real {3|(+ x 1)})(define-fun b () Bool {true|(< x y)})" + V + A("(let ((k {y|(+ k 1)|$c}) (b (not b))) ({and|or|=} b (" + c + " x (+ k {0|$d}))))") + A("({or|=} b (" + c + " (+ x k) {y|$c}))") + E, -3, 3});
    t.push_back({"param_over_def0", XY + "(define-fun k () Real {3|(+ x 1)})(define-fun f ((k Real) (x Real)) Bool (" + c + " (+ k {x|1}) {$c|(* 2 k)}))(define-fun g ((u Real)) Real (let ((k (+ u k))) (- k {u|x})))" + V + A("{(f y k)|(f k (+ y k))|(not (f (g k) x))}") + A("(" + c + " (g y) {k|$d})") + E, -3, 3});
    t.push_back({"let_over_fun", XY + "(define-fun f ((u Real)) Real (+ u 1))(define-fun g ((v Real)) Real (* 2 v))" + V + A("(let ((f {y|(f x)}) (u x)) (" + c + " (+ f {u|1}) (g {u|f|$c})))") + A("(" + c + " (g (f x)) {(f (g y))|$d})") + E, -3, 3});
    t.push_back({"let_then_def", XY + V + A("(let ((z (+ x {1|y}))) (" + c + " z $c))") + "(define-fun z () Real {(- y)|2})" + A("(let ((w z) (x z)) (" + c + " {w|x} (+ {y|z} $d)))") + A("({<=|=} z {x|$c})") + E, -3, 3});
    t.push_back({"let_in_args", XY + P + "(define-fun f ((u Real) (v Real)) Real (- u {v|(* 2 v)}))" + V + A("{p|(not p)}") + A("(" + c + " (f (let ((x y)) {x|(+ x 1)}) (let ((y x)) (f y {x|y}))) {x|$c})") + A("(let ((p (let ((p (not p))) {p|(and p (< x y))}))) ({or|=} p (" + c + " x $d)))") + E, -3, 3});
    t.push_back({"let_bool_real", XY + P + V + A("{p|(not p)}") + A("{q|(not q)}") + A("(let ((x p) (p x) (y (< x y))) (and ({or|=} x {y|q}) (" + c + " p {$c|(ite x p $d)})))") + A("(" + c + " x {y|$d})") + E, -3, 3});
    return t;
}
std::vector<T> ufs()
{
    std::vector<T> t;
    std::string const H = "(set-logic QF_UFLRA)(declare-fun x () Real)(declare-fun y () Real)(declare-fun z () Real)(declare-fun f (Real) Real)(declare-fun g (Real Real) Real)(declare-fun h (Real) Bool)(declare-fun p () Bool)";
    std::string const c = "{<|=|>=|distinct}";
    t.push_back({"congr", H + A("({=|<=} x y)") + A("({<=|=} y (+ x $a))") + A("({distinct|<|=} (f x) (f y))") + E, -3, 3});
    t.push_back({"congr2", H + A("(= x (+ z $a))") + A("(= y (+ z $b))") + A("(distinct (g x {y|z}) (g y {x|z}))") + E, -3, 3});
    t.push_back({"nested", H + A("(= (f x) $a)") + A("(= (f (f x)) $b)") + A("(" + c + " (f $a) $c)") + E, -3, 3});
    t.push_back({"fff", H + A("(= (f (f (f x))) x)") + A("({=|distinct} (f (f {x|(f (f x))})) x)") + A("(" + c + " (f x) {x|$a})") + E, -3, 3});
    t.push_back({"or_args", H + A("(or (= x $a) (= x $b))") + A("(distinct (f x) (f {$a|y}))") + A("(or (= y $b) (= (f y) (f x)))") + E, -3, 3});
    t.push_back({"pred", H + A("(h {x|$a})") + A("(not (h {y|(+ x 1)|$b}))") + A("({=|<=} x {y|(+ y $c)})") + E, -3, 3});
    t.push_back({"pred_or", H + A("(or (h x) (h y))") + A("(or (not (h x)) {p|(= x $a)})") + A("(=> (h y) (and (= x y) {(not p)|(not (h x))}))") + E, -3, 3});
    t.push_back({"mixed", H + A("(= (+ (f x) (f y)) $a)") + A("({<|<=} x y)") + A("({<=|=} y x)") + A("(" + c + " (f x) $b)") + E, -3, 3});
    t.push_back({"three", H + A("(distinct (f x) (f y))") + A("(distinct (f y) (f z))") + A("(or (= x {z|y}) (= y $a) (= z $a))") + A("(= x $b)") + E, -3, 3});
    t.push_back({"const_args", H + A("(= (f 0) $a)") + A("(= (f 1) $b)") + A("(or (= x 0) (= x 1))") + A("(" + c + " (f x) $c)") + E, -3, 3});
    t.push_back({"range", H + A("(<= 0 x)") + A("(<= x {0|1})") + A("({=|>} (f x) (f 0))") + A("(" + c + " (f 0) $a)") + A("(distinct (f x) $b)") + E, -3, 3});
    t.push_back({"arith_args", H + A("(= (f (+ x $a)) 0)") + A("(= (f (- y $b)) 1)") + A("({=|<=} x y)") + A("({=|>=} (+ x $c) y)") + E, -3, 3});
    t.push_back({"ite_arg", H + A("(= (f (ite p x y)) $a)") + A("(= (f x) $b)") + A("({=|distinct} (f y) $c)") + A("(or p (= x y))") + E, -3, 3});
    t.push_back({"switch", H + A("(ite p (= x y) (= x z))") + A("(distinct (f x) (f y))") + A("({=|distinct} (f x) (f z))") + A("(= y $a)") + A("(= z $b)") + E, -3, 3});
    t.push_back({"g_nest", H + A("(= (g (f x) y) $a)") + A("(= (g (f y) x) $b)") + A("({=|<=} x y)") + A("({<=|=} y {x|z})") + E, -3, 3});
    t.push_back({"back", H + A("(or (= x $a) (= y $a))") + A("(or (= x $b) (= z $b))") + A("(= (f x) 1)") + A("(= (f $a) 2)") + A("(or (distinct (f y) 1) (= (f z) 3))") + E, -3, 3});
    // sums as arguments: variables can cancel out of the equalities the theory derives
    t.push_back({"sum_args", H + A("({=|<=|distinct} y (f {(+ y x)|(- x y)|(* 2 x)|(+ x $a)}))") + A("({<|=|>=|distinct|<=} (f x) (f {y|(+ x y)|(+ z y)|(* 2 y)}))") + E, -3, 3});
    t.push_back({"sum_args2", H + A("(= (f (+ x {y|$a})) {x|$b})") + A("(distinct (f {(+ y z)|(+ x z)|z}) {x|y})") + A("(or (= x z) (= y z) (= y x))") + A("(or (distinct (f x) (f y)) (distinct x $b))") + E, -3, 3});
    t.push_back({"sum_pred", H + A("(h (+ x {y|z|$a}))") + A("(not (h {y|x|(- x y)|(+ z y)}))") + A("(or p (h z))") + A("(or (not p) (not (h (+ x z))) (= x y))") + E, -3, 3});
    t.push_back({"sum_g", H + A("({=|<=} x (g (+ x y) {z|(- y z)}))") + A("({distinct|<} (g {y|(+ z y)} z) (g x {y|(* 2 z)}))") + A("(or (< x y) (< y {z|$a}))") + E, -3, 3});
    t.push_back({"fsum", H + A("(= x (f {x|y}))") + A("(= y (f {y|x}))") + A("(" + c + " (- x y) $a)") + A("(or (= x y) (= (f x) (f y)) p)") + E, -3, 3});
    std::string const H4 = H + "(declare-fun w () Real)(declare-fun k (Real Real Real) Real)(declare-fun m (Real Bool Real) Bool)(declare-fun l (Real Real Real Real) Real)";
    t.push_back({"arity3", H4 + A("(= x {y|(+ y $a)})") + A("(distinct (k x y z) (k {y|x} {x|z|$b} {z|w}))") + A("({=|<=} z {w|x})") + A("({=|<=} w {z|$b})") + E, -3, 3});
    t.push_back({"arity4", H4 + A("(distinct (l x y z w) (l w z y x))") + A("(= x {w|$a})") + A("(or (= y z) (= y $b))") + A("({=|<=|>=} {w|z} $a)") + E, -3, 3});
    t.push_back({"pred3", H4 + A("(m x p y)") + A("(not (m {x|y} {p|(< x y)|true} {y|x|$a}))") + A("(or (= x y) {p|(= x $b)})") + A("(or {(not p)|p} (= y $a))") + E, -3, 3});
    t.push_back({"many_apps", H4 + A("(= (f 0) 1)") + A("(= (f 1) 2)") + A("(= (f 2) {0|3})") + A("(= (f x) y)") + A("(= (f y) z)") + A("({=|<|distinct} (f z) {x|$a})") + A("(or (= x 0) (= x 1) (= x 2) (= x $b))") + E, -3, 3});
    t.push_back({"many_preds", H4 + A("(h 0)") + A("(not (h 1))") + A("(h 2)") + A("({h|not (h} {x|y}{|)})") + A("(or (= x {1|$a}) (= x 0))") + E, -3, 3});
    t.back().text = H4 + A("(h 0)") + A("(not (h 1))") + A("({=|distinct} (h x) (h y))") + A("(or (= x {1|$a}) (= x 0))") + A("(or (= y x) (= y {0|$b|1}))") + A("{(h x)|(not (h y))|(h (f x))}") + E;
    t.push_back({"cycle_apps", H4 + A("(= (f x) y)") + A("(= (f y) z)") + A("(= (f z) w)") + A("(= (f w) {x|$a})") + A("(or (= x z) (= x y) (distinct y w))") + A("(distinct (f (f x)) {(f (f z))|(f y)|y})") + E, -3, 3});
    t.push_back({"bool_chain", H4 + "(declare-fun b (Bool) Bool)(declare-fun c (Bool Bool) Real)" + A("(= (b p) {(not p)|p})") + A("({=|distinct} (b (b p)) {p|(b (not p))})") + A("(distinct (c p (b p)) {(c (b p) p)|(c true false)|$a})") + A("{(h x)|(= p (h y))}") + E, -3, 3});
    return t;
}
std::vector<T> multi()
{
    std::vector<T> t;
    std::string const C = "(check-sat)";
    t.push_back({"two", X + A("(" + R + " x $a)") + C + A("(" + R + " x $b)") + E, -3, 3});
    t.push_back({"three", X + A("({<|=|>=} x $a)") + C + A("({<|=|>=} x $b)") + C + A("({<|=|>=|distinct} x $c)") + E, -3, 3});
    t.push_back({"same", X + A("({<|=} x $a)") + C + C + A("({>|=} x $a)") + E, -3, 3});
    t.push_back({"models", XY + A("(= x $a)") + C + "(get-model)" + A("({<|=} x y)") + C + "(get-model)" + A("({<|distinct|=} y $b)") + E, -3, 3});
    t.push_back({"bool", P + "(declare-fun r () Bool)" + A("(or p q)") + C + A("{p|(not p)|(not q)}") + C + A("{q|(not q)|(= p q)}") + C + A("(xor {p|q} r)") + E});
    t.back().text = "(set-logic QF_LRA)" + t.back().text;
    t.push_back({"bool_uc", "(set-logic QF_LRA)" + P + A("(or p q)") + C + A("(or (not p) q)") + C + A("(or p (not q))") + C + A("(or (not p) (not q))") + E});
    t.push_back({"decl_between", X + P + A("(or p (< x $a))") + C + "(declare-fun y () Real)" + A("(= y (+ x $b))") + A("(not p)") + C + A("({<|>=} y $c)") + E, -3, 3});
    t.push_back({"negated_again", X + P + A("(or p (= x $a))") + C + A("(not {p|(= x $a)|(or p (= x $a))})") + C + A("({<|=} x $b)") + E, -3, 3});
    t.push_back({"false", X + A("({<|=} x $a)") + C + A("false") + C + A("(= x $b)") + E, -3, 3});
    t.push_back({"ite", XY + P + A("(= y (ite p x (+ x 1)))") + C + A("({=|<} y $a)") + C + A("({=|>} x $a)") + C + A("{p|(not p)}") + E, -3, 3});
    t.push_back({"after_unsat", XY + A("(< x $a)") + A("(> x $b)") + C + A("(= x y)") + C + A("({=|<} y $c)") + E, -3, 3});
    t.push_back({"long", XY + P + A("(or p (< x $a))") + C + A("(or (not p) (> x $b))") + C + A("({<|=} y x)") + C + A("(or q (= y $a))") + C + A("(or (not q) {p|(= x $b)})") + C + A("({>=|distinct} (+ x y) $c)") + C + A("{q|(not q)}") + C + A("{p|(not p)}") + C + "(get-model)" + A("({=|<} (- x y) 1)") + E, -3, 3});
    t.push_back({"repeat", XY + A("(< x $a)") + C + A("(< x $a)") + C + A("({>=|<} x {$a|$b})") + C + A("({<|>=} x {$b|$a})") + C + A("(= y x)") + C + A("(distinct y $c)") + E, -3, 3});
    t.push_back({"uf_multi", "(set-logic QF_UFLRA)(declare-fun x () Real)(declare-fun f (Real) Real)" + A("(= (f x) $a)") + C + "(declare-fun y () Real)" + A("(= (f y) $b)") + C + A("({=|<=} x y)") + C + "(get-model)" + A("({=|<=} y x)") + C + "(declare-fun g (Real) Real)" + A("({=|distinct} (g x) (f {y|x}))") + E, -3, 3});
    t.push_back({"bool_grow", X + A("(< x $a)") + C + "(declare-fun p () Bool)(declare-fun q () Bool)" + A("(= p (< x {$a|$b}))") + C + "(declare-fun r () Bool)" + A("(= r (and p {q|(not q)}))") + C + A("{r|(not r)|(not p)}") + C + "(declare-fun y () Real)" + A("(=> r (= x (+ y 1)))") + A("({=|<} y $b)") + E, -3, 3});
    t.push_back({"unsat_stays", XY + P + A("(and p (< x y))") + C + A("{(not p)|(< y x)|(= x $a)}") + C + A("(or q (= y $a))") + C + "(declare-fun z () Real)" + A("({=|<} z x)") + C + A("{(= z y)|(not q)}") + E, -3, 3});
    t.push_back({"ite_multi", XY + P + A("(= y (ite (< x $a) x {1|$b}))") + C + A("({=|<} (ite (< x $a) x {1|$b}) $c)") + C + A("{(< x $a)|(not (< x $a))}") + C + A("(= y {(ite p x 0)|(+ x 1)})") + E, -3, 3});
    return t;
}
std::vector<T> nums()
{
    std::vector<T> t;
    std::string const c = "{=|<|>=}";
    // signs, zeros and positions of constants are symbolic; digit strings are covered by the bit-vector jobs
    t.push_back({"div", X + A("(= x (/ %n %m))") + A("(" + c + " (* x %m) %k)") + E, 1, 4});
    t.push_back({"div_term", X + A("(= (/ x %m) $a)") + A("(" + c + " x {$b|(* $a %m)})") + E, 1, 5});
    t.push_back({"neg_div", X + A("(= x (/ (- %n) %m))") + A("(" + c + " x {(- (/ %n %m))|(/ %n (- %m))|(* (- 1) (/ %n %m))})") + E, 1, 5});
    t.push_back({"dec_div", X + A("(= x (/ $a %m))") + A("(" + c + " (+ x x) (* {2|2.0} (/ $a %m)))") + E, 1, 5});
    t.push_back({"div3", X + A("(= x (/ (/ %n %m) %k))") + A("(" + c + " (* (* x %m) %k) %n)") + E, 1, 3});
    t.push_back({"mulc", X + A("(= x (* %n $a))") + A("(" + c + " x (* $a {%n|(+ %n 0)|%m}))") + E, 0, 3});
    std::string const big = "{2147483647|2147483648|2147483649|4294967295|4294967296|4294967297|3000000000|9223372036854775807|9223372036854775808|18446744073709551616|123456789012345678901234567890|1}";
    t.push_back({"big_div", X + A("(= (* x " + big + ") {1|(- 1)|$a})") + A("(= x (/ {1|(- 1)|$a} " + big + "))") + E, -2, 2});
    t.push_back({"big_div_term", XY + A("(= y (/ x " + big + "))") + A("(" + c + " x " + big + ")") + A("({=|<|>} y {1|$a})") + E, -2, 2});
    t.push_back({"big_cmp", X + A("(= x {(- |(+ 0 }" + big + "))") + A("(" + c + " x {(- |(+ 0 }" + big + "))") + E, -2, 2});
    t.push_back({"zeros", X + A("(= x {0.0|0.10|0.010|00.5|1.50|0.05|10.0|1.0000000000|2.0000000001|0.3333333333|100.001|007.0})") + A("(" + c + " x {0|0.1|0.01|0.5|1.5|0.050|10|1|2.0000000001|0.33333333330|100.0010|7.0})") + E, -2, 2});
    t.push_back({"bigdec", X + A("(= x {0.4294967295|0.4294967296|0.42949672961|4294967296.5|2147483648.25|0.00000000000000000001|99999999999999999999.99999999999999999999|12345678901234567890.5})") + A("({=|<|>=} (* x {1|2|(- 3)|4294967296}) {(+ x x)|(- (* x (- 1)))|0.4294967296|4294967296.5|2147483648.25|99999999999999999999.99999999999999999999})") + E, -2, 2});
    t.push_back({"big_inv", XY + A("(= y (/ x " + big + "))") + A("(= x {" "2147483647|2147483648|2147483649|4294967296|9223372036854775808|123456789012345678901234567890|3})") + A("(= (* y " + big + ") x)") + E});
    return t;
}
std::string gen_multi(unsigned seed, int size, int nsym, char const* fl)
{
    std::string t = e2e::gen_lra(seed, size, nsym, fl), o; int k = 0;
    std::size_t p = 0;
    while (true) { std::size_t q = t.find("(assert", p); if (q == std::string::npos) { o += t.substr(p); break; } o += t.substr(p, q - p); if (k > 0 && (k + seed) % 2) o += (seed % 3 == 0 ? "(check-sat)\n(get-model)\n" : "(check-sat)\n"); ++k; o += "(assert"; p = q + 7; }
    return o;
}
}
void sym::make_jobs(std::string const& p, std::vector<sym::Job>& out)
{
    bool thorough = tier() == "thorough";
    auto add = [&](std::string const& name, T const& t) {
        out.push_back({name, [t] { e2e::Script s; s.text = t.text; s.lo = t.lo; s.hi = t.hi; s.options = t.options; e2e::run(s, true, true); }, 0, true});
    };
    auto all = [&](std::vector<T> const& v, int options = 0) { for (T t : v) { if (options) t.options = options; add(t.name, t); } };
    auto gen = [&](int n, std::vector<char const*> fl, int options = 0, int base = 0) {
        for (int i = 0; i < n; ++i) {
            T t{"", e2e::gen_lra((unsigned)(base + i) + 1000 * seed(), 4 + i % 4, 1 + i % 3, fl[(std::size_t)i % fl.size()])}; t.options = options;
            add("gen" + std::to_string(base + i), t);
        }
    };
    int m = thorough ? 8 : 1;
    if (p == "C01") { all(lra()); gen(90 * m, {"conj", "cnf", "mixed", "pool"}); }
    if (p == "C02") { all(lra()); gen(90 * m, {"conj", "cnf", "mixed", "pool"}, 0, 5000); }
    if (p == "C02") {   // names that have to be quoted, and names that only look as if they had to
        std::vector<std::vector<char const*>> names{{"let", "!", "as-1", "match"}, {"par", "exists", "_x", "forall"}, {"assert", "check-sat", "NUMERAL", "STRING"}, {"a b", "1x", "x.y", "0"}, {"", "a(b", ";c", "\"q\""}, {"x'", "a,b", "[i]", "#b1"},
            {"~!@$%^&*", "-", "x-1", ".8"}, {"let2", "BINARY", "DECIMAL", "HEXADECIMAL"}, {"get-model", "push", "declare-fun", "a\nb"}, {":k", "x y z", "\t", "1"}};
        for (std::size_t i = 0; i < names.size(); ++i) { auto n = [&](int k) { return "|" + std::string(names[i][(std::size_t)k]) + "|"; };
            std::string t = "(set-logic QF_UFLRA)(declare-fun " + n(0) + " () Real)(declare-fun " + n(1) + " () Bool)(declare-fun " + n(2) + " (Real) Real)(declare-fun " + n(3) + " () Real)" + A("(= " + n(0) + " $a)") + A("({=|xor} " + n(1) + " (< " + n(0) + " $b))") + A("({=|<} (" + n(2) + " " + n(0) + ") " + n(3) + ")") + E;
            add("names" + std::to_string(i), T{"", t, -3, 3}); }
    }
    if (p == "C11") { all(terms()); gen(60 * m, {"mixed"}, 0, 9000); }
    if (p == "C13") all(lets());
    if (p == "C15") { all(ufs()); gen(60 * m, {"uf", "uf2"}, 0, 13000); }
    if (p == "C16") { all(lra(), 1); gen(60 * m, {"conj", "cnf", "mixed", "pool"}, 1, 17000); }
    if (p == "C21") all(nums());
    if (p == "C25") {
        auto ends = [&](std::string const& name, T t) { out.push_back({"script_" + name, [t] { e2e::Script s; s.text = t.text; s.lo = t.lo; s.hi = t.hi; s.options = t.options; s.ends_only = true; e2e::run(s, false, false); }, 0, true}); };
        for (auto& t : ufs()) ends(t.name, t);
        char const* fl[] = {"uf2", "pool", "uf", "mixed"};
        for (int i = 0; i < 40 * m; ++i) { T t{"", e2e::gen_lra((unsigned)i + 30000 + 1000 * seed(), 4 + i % 4, 1 + i % 3, fl[i % 4])}; t.options = i % 3 == 0; ends("gen" + std::to_string(i), t); }
    }
    if (p == "C24") {
        all(multi());
        for (int i = 0; i < 40 * m; ++i) { char const* fl[] = {"cnf", "mixed", "conj", "pool"}; T t{"", gen_multi((unsigned)i + 21000 + 1000 * seed(), 3 + i % 4, 1 + i % 2, fl[i % 4])}; add("gen" + std::to_string(i), t); }
    }
}
