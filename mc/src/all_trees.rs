// Generated by tools/gen_trees.py.
fn tree0(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * l.po(0) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree1(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * l.pr(0) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree2(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) * s[0] { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree3(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) * s[0] { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree4(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) + l.go(1) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree5(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + l.go(1) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree6(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) + l.gr(1) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree7(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + l.gr(1) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree8(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * (s[1] * l.po(0)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree9(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * (s[1] * l.pr(0)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree10(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * (l.po(0) * s[1]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree11(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * (l.pr(0) * s[1]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree12(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &(s[1] * l.po(0)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree13(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &(s[1] * l.pr(0)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree14(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &(l.po(0) * s[1]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree15(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &(l.pr(0) * s[1]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree16(l: &Leaves, s: &[T], h: &mut Harness) { match (s[1] * l.po(0)) * s[0] { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree17(l: &Leaves, s: &[T], h: &mut Harness) { match (s[1] * l.pr(0)) * s[0] { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree18(l: &Leaves, s: &[T], h: &mut Harness) { match (l.po(0) * s[1]) * s[0] { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree19(l: &Leaves, s: &[T], h: &mut Harness) { match (l.pr(0) * s[1]) * s[0] { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree20(l: &Leaves, s: &[T], h: &mut Harness) { match &(s[1] * l.po(0)) * s[0] { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree21(l: &Leaves, s: &[T], h: &mut Harness) { match &(s[1] * l.pr(0)) * s[0] { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree22(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) * s[1]) * s[0] { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree23(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.pr(0) * s[1]) * s[0] { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree24(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * (l.po(0) + l.go(1)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree25(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * (l.pr(0) + l.go(1)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree26(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * (l.po(0) + l.gr(1)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree27(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * (l.pr(0) + l.gr(1)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree28(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &(l.po(0) + l.go(1)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree29(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &(l.pr(0) + l.go(1)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree30(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &(l.po(0) + l.gr(1)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree31(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &(l.pr(0) + l.gr(1)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree32(l: &Leaves, s: &[T], h: &mut Harness) { match (l.po(0) + l.go(1)) * s[0] { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree33(l: &Leaves, s: &[T], h: &mut Harness) { match (l.pr(0) + l.go(1)) * s[0] { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree34(l: &Leaves, s: &[T], h: &mut Harness) { match (l.po(0) + l.gr(1)) * s[0] { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree35(l: &Leaves, s: &[T], h: &mut Harness) { match (l.pr(0) + l.gr(1)) * s[0] { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree36(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) + l.go(1)) * s[0] { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree37(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.pr(0) + l.go(1)) * s[0] { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree38(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) + l.gr(1)) * s[0] { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree39(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.pr(0) + l.gr(1)) * s[0] { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree40(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) + (s[0] * l.go(1)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree41(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) + (s[0] * l.gr(1)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree42(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) + (l.go(1) * s[0]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree43(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) + (l.gr(1) * s[0]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree44(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + (s[0] * l.go(1)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree45(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + (s[0] * l.gr(1)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree46(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + (l.go(1) * s[0]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree47(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + (l.gr(1) * s[0]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree48(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) + &(s[0] * l.go(1)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree49(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) + &(s[0] * l.gr(1)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree50(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) + &(l.go(1) * s[0]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree51(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) + &(l.gr(1) * s[0]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree52(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + &(s[0] * l.go(1)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree53(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + &(s[0] * l.gr(1)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree54(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + &(l.go(1) * s[0]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree55(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + &(l.gr(1) * s[0]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree56(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) + (l.go(1) + l.po(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree57(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) + (l.gr(1) + l.po(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree58(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) + (l.go(1) + l.pr(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree59(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) + (l.gr(1) + l.pr(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree60(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + (l.go(1) + l.po(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree61(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + (l.gr(1) + l.po(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree62(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + (l.go(1) + l.pr(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree63(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + (l.gr(1) + l.pr(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree64(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) + &(l.go(1) + l.po(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree65(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) + &(l.gr(1) + l.po(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree66(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) + &(l.go(1) + l.pr(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree67(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) + &(l.gr(1) + l.pr(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree68(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + &(l.go(1) + l.po(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree69(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + &(l.gr(1) + l.po(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree70(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + &(l.go(1) + l.pr(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree71(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + &(l.gr(1) + l.pr(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree72(l: &Leaves, s: &[T], h: &mut Harness) { match (s[0] * l.po(0)) + l.go(1) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree73(l: &Leaves, s: &[T], h: &mut Harness) { match (s[0] * l.pr(0)) + l.go(1) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree74(l: &Leaves, s: &[T], h: &mut Harness) { match (l.po(0) * s[0]) + l.go(1) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree75(l: &Leaves, s: &[T], h: &mut Harness) { match (l.pr(0) * s[0]) + l.go(1) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree76(l: &Leaves, s: &[T], h: &mut Harness) { match &(s[0] * l.po(0)) + l.go(1) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree77(l: &Leaves, s: &[T], h: &mut Harness) { match &(s[0] * l.pr(0)) + l.go(1) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree78(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) * s[0]) + l.go(1) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree79(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.pr(0) * s[0]) + l.go(1) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree80(l: &Leaves, s: &[T], h: &mut Harness) { match (s[0] * l.po(0)) + l.gr(1) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree81(l: &Leaves, s: &[T], h: &mut Harness) { match (s[0] * l.pr(0)) + l.gr(1) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree82(l: &Leaves, s: &[T], h: &mut Harness) { match (l.po(0) * s[0]) + l.gr(1) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree83(l: &Leaves, s: &[T], h: &mut Harness) { match (l.pr(0) * s[0]) + l.gr(1) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree84(l: &Leaves, s: &[T], h: &mut Harness) { match &(s[0] * l.po(0)) + l.gr(1) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree85(l: &Leaves, s: &[T], h: &mut Harness) { match &(s[0] * l.pr(0)) + l.gr(1) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree86(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) * s[0]) + l.gr(1) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree87(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.pr(0) * s[0]) + l.gr(1) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree88(l: &Leaves, s: &[T], h: &mut Harness) { match (l.po(0) + l.go(1)) + l.po(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree89(l: &Leaves, s: &[T], h: &mut Harness) { match (l.pr(0) + l.go(1)) + l.po(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree90(l: &Leaves, s: &[T], h: &mut Harness) { match (l.po(0) + l.gr(1)) + l.po(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree91(l: &Leaves, s: &[T], h: &mut Harness) { match (l.pr(0) + l.gr(1)) + l.po(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree92(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) + l.go(1)) + l.po(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree93(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.pr(0) + l.go(1)) + l.po(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree94(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) + l.gr(1)) + l.po(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree95(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.pr(0) + l.gr(1)) + l.po(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree96(l: &Leaves, s: &[T], h: &mut Harness) { match (l.po(0) + l.go(1)) + l.pr(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree97(l: &Leaves, s: &[T], h: &mut Harness) { match (l.pr(0) + l.go(1)) + l.pr(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree98(l: &Leaves, s: &[T], h: &mut Harness) { match (l.po(0) + l.gr(1)) + l.pr(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree99(l: &Leaves, s: &[T], h: &mut Harness) { match (l.pr(0) + l.gr(1)) + l.pr(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree100(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) + l.go(1)) + l.pr(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree101(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.pr(0) + l.go(1)) + l.pr(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree102(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) + l.gr(1)) + l.pr(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree103(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.pr(0) + l.gr(1)) + l.pr(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree104(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * (s[1] * (s[2] * l.po(0))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree105(l: &Leaves, s: &[T], h: &mut Harness) { match &(&(l.pr(0) * s[2]) * s[1]) * s[0] { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree106(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &((l.pr(0) * s[2]) * s[1]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree107(l: &Leaves, s: &[T], h: &mut Harness) { match (s[1] * &(s[2] * l.po(0))) * s[0] { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree108(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * (s[1] * (l.po(0) + l.go(1))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree109(l: &Leaves, s: &[T], h: &mut Harness) { match &(&(l.pr(0) + l.gr(1)) * s[1]) * s[0] { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree110(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &((l.pr(0) + l.gr(1)) * s[1]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree111(l: &Leaves, s: &[T], h: &mut Harness) { match (s[1] * &(l.po(0) + l.go(1))) * s[0] { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree112(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * (l.po(0) + (s[1] * l.go(1))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree113(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.pr(0) + &(l.gr(1) * s[1])) * s[0] { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree114(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &(l.po(0) + &(l.gr(1) * s[1])) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree115(l: &Leaves, s: &[T], h: &mut Harness) { match (l.pr(0) + (s[1] * l.go(1))) * s[0] { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree116(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * (l.po(0) + (l.go(1) + l.po(2))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree117(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.pr(0) + &(l.gr(1) + l.pr(2))) * s[0] { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree118(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &(l.po(0) + &(l.gr(1) + l.pr(2))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree119(l: &Leaves, s: &[T], h: &mut Harness) { match (l.pr(0) + (l.go(1) + l.po(2))) * s[0] { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree120(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * ((s[1] * l.po(0)) + l.go(1)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree121(l: &Leaves, s: &[T], h: &mut Harness) { match &(&(l.pr(0) * s[1]) + l.gr(1)) * s[0] { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree122(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &((l.pr(0) * s[1]) + l.gr(1)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree123(l: &Leaves, s: &[T], h: &mut Harness) { match (&(s[1] * l.po(0)) + l.go(1)) * s[0] { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree124(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * ((l.po(0) + l.go(1)) + l.po(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree125(l: &Leaves, s: &[T], h: &mut Harness) { match &(&(l.pr(0) + l.gr(1)) + l.pr(2)) * s[0] { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree126(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &((l.pr(0) + l.gr(1)) + l.pr(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree127(l: &Leaves, s: &[T], h: &mut Harness) { match (&(l.po(0) + l.go(1)) + l.po(2)) * s[0] { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree128(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) + (s[0] * (s[1] * l.go(1))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree129(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + &(&(l.gr(1) * s[1]) * s[0]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree130(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + ((l.gr(1) * s[1]) * s[0]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree131(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) + &(s[0] * &(s[1] * l.go(1))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree132(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) + (s[0] * (l.go(1) + l.po(2))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree133(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + &(&(l.gr(1) + l.pr(2)) * s[0]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree134(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + ((l.gr(1) + l.pr(2)) * s[0]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree135(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) + &(s[0] * &(l.go(1) + l.po(2))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree136(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) + (l.go(1) + (s[0] * l.po(2))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree137(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + &(l.gr(1) + &(l.pr(2) * s[0])) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree138(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + (l.go(1) + &(l.pr(2) * s[0])) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree139(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) + &(l.gr(1) + (s[0] * l.po(2))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree140(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) + (l.go(1) + (l.po(2) + l.go(3))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree141(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + &(l.gr(1) + &(l.pr(2) + l.gr(3))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree142(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + (l.go(1) + &(l.pr(2) + l.gr(3))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree143(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) + &(l.gr(1) + (l.po(2) + l.go(3))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree144(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) + ((s[0] * l.go(1)) + l.po(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree145(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + &(&(l.gr(1) * s[0]) + l.pr(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree146(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + ((l.gr(1) * s[0]) + l.pr(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree147(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) + &(&(s[0] * l.go(1)) + l.po(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree148(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) + ((l.go(1) + l.po(2)) + l.go(3)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree149(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + &(&(l.gr(1) + l.pr(2)) + l.gr(3)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree150(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + ((l.gr(1) + l.pr(2)) + l.gr(3)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree151(l: &Leaves, s: &[T], h: &mut Harness) { match l.po(0) + &(&(l.go(1) + l.po(2)) + l.go(3)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree152(l: &Leaves, s: &[T], h: &mut Harness) { match (s[0] * l.po(0)) + (s[1] * l.go(1)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree153(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.pr(0) * s[0]) + &(l.gr(1) * s[1]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree154(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) * s[0]) + (l.gr(1) * s[1]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree155(l: &Leaves, s: &[T], h: &mut Harness) { match (s[0] * l.pr(0)) + &(s[1] * l.go(1)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree156(l: &Leaves, s: &[T], h: &mut Harness) { match (s[0] * l.po(0)) + (l.go(1) + l.po(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree157(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.pr(0) * s[0]) + &(l.gr(1) + l.pr(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree158(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) * s[0]) + (l.gr(1) + l.pr(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree159(l: &Leaves, s: &[T], h: &mut Harness) { match (s[0] * l.pr(0)) + &(l.go(1) + l.po(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree160(l: &Leaves, s: &[T], h: &mut Harness) { match (l.po(0) + l.go(1)) + (s[0] * l.po(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree161(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.pr(0) + l.gr(1)) + &(l.pr(2) * s[0]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree162(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) + l.gr(1)) + (l.pr(2) * s[0]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree163(l: &Leaves, s: &[T], h: &mut Harness) { match (l.pr(0) + l.go(1)) + &(s[0] * l.po(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree164(l: &Leaves, s: &[T], h: &mut Harness) { match (l.po(0) + l.go(1)) + (l.po(2) + l.go(3)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree165(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.pr(0) + l.gr(1)) + &(l.pr(2) + l.gr(3)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree166(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) + l.gr(1)) + (l.pr(2) + l.gr(3)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree167(l: &Leaves, s: &[T], h: &mut Harness) { match (l.pr(0) + l.go(1)) + &(l.po(2) + l.go(3)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree168(l: &Leaves, s: &[T], h: &mut Harness) { match (s[0] * (s[1] * l.po(0))) + l.go(1) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree169(l: &Leaves, s: &[T], h: &mut Harness) { match &(&(l.pr(0) * s[1]) * s[0]) + l.gr(1) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree170(l: &Leaves, s: &[T], h: &mut Harness) { match &((l.pr(0) * s[1]) * s[0]) + l.go(1) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree171(l: &Leaves, s: &[T], h: &mut Harness) { match (s[0] * &(s[1] * l.po(0))) + l.gr(1) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree172(l: &Leaves, s: &[T], h: &mut Harness) { match (s[0] * (l.po(0) + l.go(1))) + l.po(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree173(l: &Leaves, s: &[T], h: &mut Harness) { match &(&(l.pr(0) + l.gr(1)) * s[0]) + l.pr(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree174(l: &Leaves, s: &[T], h: &mut Harness) { match &((l.pr(0) + l.gr(1)) * s[0]) + l.po(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree175(l: &Leaves, s: &[T], h: &mut Harness) { match (s[0] * &(l.po(0) + l.go(1))) + l.pr(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree176(l: &Leaves, s: &[T], h: &mut Harness) { match (l.po(0) + (s[0] * l.go(1))) + l.po(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree177(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.pr(0) + &(l.gr(1) * s[0])) + l.pr(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree178(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) + &(l.gr(1) * s[0])) + l.po(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree179(l: &Leaves, s: &[T], h: &mut Harness) { match (l.pr(0) + (s[0] * l.go(1))) + l.pr(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree180(l: &Leaves, s: &[T], h: &mut Harness) { match (l.po(0) + (l.go(1) + l.po(2))) + l.go(3) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree181(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.pr(0) + &(l.gr(1) + l.pr(2))) + l.gr(3) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree182(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) + &(l.gr(1) + l.pr(2))) + l.go(3) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree183(l: &Leaves, s: &[T], h: &mut Harness) { match (l.pr(0) + (l.go(1) + l.po(2))) + l.gr(3) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree184(l: &Leaves, s: &[T], h: &mut Harness) { match ((s[0] * l.po(0)) + l.go(1)) + l.po(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree185(l: &Leaves, s: &[T], h: &mut Harness) { match &(&(l.pr(0) * s[0]) + l.gr(1)) + l.pr(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree186(l: &Leaves, s: &[T], h: &mut Harness) { match &((l.pr(0) * s[0]) + l.gr(1)) + l.po(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree187(l: &Leaves, s: &[T], h: &mut Harness) { match (&(s[0] * l.po(0)) + l.go(1)) + l.pr(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree188(l: &Leaves, s: &[T], h: &mut Harness) { match ((l.po(0) + l.go(1)) + l.po(2)) + l.go(3) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree189(l: &Leaves, s: &[T], h: &mut Harness) { match &(&(l.pr(0) + l.gr(1)) + l.pr(2)) + l.gr(3) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree190(l: &Leaves, s: &[T], h: &mut Harness) { match &((l.pr(0) + l.gr(1)) + l.pr(2)) + l.go(3) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree191(l: &Leaves, s: &[T], h: &mut Harness) { match (&(l.po(0) + l.go(1)) + l.po(2)) + l.gr(3) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree192(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &((&(s[3] * l.po(0)) * s[2]) * s[1]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree193(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &((&(l.po(0) + l.go(1)) * s[2]) * s[1]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree194(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &((l.pr(0) + &(s[2] * l.go(1))) * s[1]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree195(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &((l.pr(0) + &(l.go(1) + l.po(2))) * s[1]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree196(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &((&(s[2] * l.po(0)) + l.gr(1)) * s[1]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree197(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &((&(l.po(0) + l.go(1)) + l.pr(2)) * s[1]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree198(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &(l.po(0) + &(&(s[2] * l.go(1)) * s[1])) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree199(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &(l.po(0) + &(&(l.go(1) + l.po(2)) * s[1])) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree200(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &(l.po(0) + &(l.gr(1) + &(s[1] * l.po(2)))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree201(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &(l.po(0) + &(l.gr(1) + &(l.po(2) + l.go(3)))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree202(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &(l.po(0) + &(&(s[1] * l.go(1)) + l.pr(2))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree203(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &(l.po(0) + &(&(l.go(1) + l.po(2)) + l.gr(3))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree204(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &((l.pr(0) * s[1]) + &(s[2] * l.go(1))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree205(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &((l.pr(0) * s[1]) + &(l.go(1) + l.po(2))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree206(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &((l.pr(0) + l.gr(1)) + &(s[1] * l.po(2))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree207(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &((l.pr(0) + l.gr(1)) + &(l.po(2) + l.go(3))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree208(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &((&(s[2] * l.po(0)) * s[1]) + l.gr(1)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree209(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &((&(l.po(0) + l.go(1)) * s[1]) + l.pr(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree210(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &((l.pr(0) + &(s[1] * l.go(1))) + l.pr(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree211(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &((l.pr(0) + &(l.go(1) + l.po(2))) + l.gr(3)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree212(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &((&(s[1] * l.po(0)) + l.gr(1)) + l.pr(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree213(l: &Leaves, s: &[T], h: &mut Harness) { match s[0] * &((&(l.po(0) + l.go(1)) + l.pr(2)) + l.gr(3)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree214(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + ((&(s[2] * l.go(1)) * s[1]) * s[0]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree215(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + ((&(l.go(1) + l.po(2)) * s[1]) * s[0]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree216(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + ((l.gr(1) + &(s[1] * l.po(2))) * s[0]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree217(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + ((l.gr(1) + &(l.po(2) + l.go(3))) * s[0]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree218(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + ((&(s[1] * l.go(1)) + l.pr(2)) * s[0]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree219(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + ((&(l.go(1) + l.po(2)) + l.gr(3)) * s[0]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree220(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + (l.go(1) + &(&(s[1] * l.po(2)) * s[0])) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree221(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + (l.go(1) + &(&(l.po(2) + l.go(3)) * s[0])) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree222(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + (l.go(1) + &(l.pr(2) + &(s[0] * l.go(3)))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree223(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + (l.go(1) + &(l.pr(2) + &(l.go(3) + l.po(4)))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree224(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + (l.go(1) + &(&(s[0] * l.po(2)) + l.gr(3))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree225(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + (l.go(1) + &(&(l.po(2) + l.go(3)) + l.pr(4))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree226(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + ((l.gr(1) * s[0]) + &(s[1] * l.po(2))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree227(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + ((l.gr(1) * s[0]) + &(l.po(2) + l.go(3))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree228(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + ((l.gr(1) + l.pr(2)) + &(s[0] * l.go(3))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree229(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + ((l.gr(1) + l.pr(2)) + &(l.go(3) + l.po(4))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree230(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + ((&(s[1] * l.go(1)) * s[0]) + l.pr(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree231(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + ((&(l.go(1) + l.po(2)) * s[0]) + l.gr(3)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree232(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + ((l.gr(1) + &(s[0] * l.po(2))) + l.gr(3)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree233(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + ((l.gr(1) + &(l.po(2) + l.go(3))) + l.pr(4)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree234(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + ((&(s[0] * l.go(1)) + l.pr(2)) + l.gr(3)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree235(l: &Leaves, s: &[T], h: &mut Harness) { match l.pr(0) + ((&(l.go(1) + l.po(2)) + l.gr(3)) + l.pr(4)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree236(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) * s[0]) + (&(s[2] * l.go(1)) * s[1]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree237(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) * s[0]) + (&(l.go(1) + l.po(2)) * s[1]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree238(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) * s[0]) + (l.gr(1) + &(s[1] * l.po(2))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree239(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) * s[0]) + (l.gr(1) + &(l.po(2) + l.go(3))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree240(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) * s[0]) + (&(s[1] * l.go(1)) + l.pr(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree241(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) * s[0]) + (&(l.go(1) + l.po(2)) + l.gr(3)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree242(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) + l.gr(1)) + (&(s[1] * l.po(2)) * s[0]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree243(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) + l.gr(1)) + (&(l.po(2) + l.go(3)) * s[0]) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree244(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) + l.gr(1)) + (l.pr(2) + &(s[0] * l.go(3))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree245(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) + l.gr(1)) + (l.pr(2) + &(l.go(3) + l.po(4))) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree246(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) + l.gr(1)) + (&(s[0] * l.po(2)) + l.gr(3)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree247(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) + l.gr(1)) + (&(l.po(2) + l.go(3)) + l.pr(4)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree248(l: &Leaves, s: &[T], h: &mut Harness) { match &((l.pr(0) * s[1]) * s[0]) + (s[2] * l.go(1)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree249(l: &Leaves, s: &[T], h: &mut Harness) { match &((l.pr(0) * s[1]) * s[0]) + (l.go(1) + l.po(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree250(l: &Leaves, s: &[T], h: &mut Harness) { match &((l.pr(0) + l.gr(1)) * s[0]) + (s[1] * l.po(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree251(l: &Leaves, s: &[T], h: &mut Harness) { match &((l.pr(0) + l.gr(1)) * s[0]) + (l.po(2) + l.go(3)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree252(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) + &(l.gr(1) * s[0])) + (s[1] * l.po(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree253(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) + &(l.gr(1) * s[0])) + (l.po(2) + l.go(3)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree254(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) + &(l.gr(1) + l.pr(2))) + (s[0] * l.go(3)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree255(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) + &(l.gr(1) + l.pr(2))) + (l.go(3) + l.po(4)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree256(l: &Leaves, s: &[T], h: &mut Harness) { match &((l.pr(0) * s[0]) + l.gr(1)) + (s[1] * l.po(2)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree257(l: &Leaves, s: &[T], h: &mut Harness) { match &((l.pr(0) * s[0]) + l.gr(1)) + (l.po(2) + l.go(3)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree258(l: &Leaves, s: &[T], h: &mut Harness) { match &((l.pr(0) + l.gr(1)) + l.pr(2)) + (s[0] * l.go(3)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree259(l: &Leaves, s: &[T], h: &mut Harness) { match &((l.pr(0) + l.gr(1)) + l.pr(2)) + (l.go(3) + l.po(4)) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree260(l: &Leaves, s: &[T], h: &mut Harness) { match &((&(s[2] * l.po(0)) * s[1]) * s[0]) + l.go(1) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree261(l: &Leaves, s: &[T], h: &mut Harness) { match &((&(l.po(0) + l.go(1)) * s[1]) * s[0]) + l.po(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree262(l: &Leaves, s: &[T], h: &mut Harness) { match &((l.pr(0) + &(s[1] * l.go(1))) * s[0]) + l.po(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree263(l: &Leaves, s: &[T], h: &mut Harness) { match &((l.pr(0) + &(l.go(1) + l.po(2))) * s[0]) + l.go(3) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree264(l: &Leaves, s: &[T], h: &mut Harness) { match &((&(s[1] * l.po(0)) + l.gr(1)) * s[0]) + l.po(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree265(l: &Leaves, s: &[T], h: &mut Harness) { match &((&(l.po(0) + l.go(1)) + l.pr(2)) * s[0]) + l.go(3) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree266(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) + &(&(s[1] * l.go(1)) * s[0])) + l.po(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree267(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) + &(&(l.go(1) + l.po(2)) * s[0])) + l.go(3) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree268(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) + &(l.gr(1) + &(s[0] * l.po(2)))) + l.go(3) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree269(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) + &(l.gr(1) + &(l.po(2) + l.go(3)))) + l.po(4) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree270(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) + &(&(s[0] * l.go(1)) + l.pr(2))) + l.go(3) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree271(l: &Leaves, s: &[T], h: &mut Harness) { match &(l.po(0) + &(&(l.go(1) + l.po(2)) + l.gr(3))) + l.po(4) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree272(l: &Leaves, s: &[T], h: &mut Harness) { match &((l.pr(0) * s[0]) + &(s[1] * l.go(1))) + l.po(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree273(l: &Leaves, s: &[T], h: &mut Harness) { match &((l.pr(0) * s[0]) + &(l.go(1) + l.po(2))) + l.go(3) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree274(l: &Leaves, s: &[T], h: &mut Harness) { match &((l.pr(0) + l.gr(1)) + &(s[0] * l.po(2))) + l.go(3) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree275(l: &Leaves, s: &[T], h: &mut Harness) { match &((l.pr(0) + l.gr(1)) + &(l.po(2) + l.go(3))) + l.po(4) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree276(l: &Leaves, s: &[T], h: &mut Harness) { match &((&(s[1] * l.po(0)) * s[0]) + l.gr(1)) + l.po(2) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree277(l: &Leaves, s: &[T], h: &mut Harness) { match &((&(l.po(0) + l.go(1)) * s[0]) + l.pr(2)) + l.go(3) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree278(l: &Leaves, s: &[T], h: &mut Harness) { match &((l.pr(0) + &(s[0] * l.go(1))) + l.pr(2)) + l.go(3) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree279(l: &Leaves, s: &[T], h: &mut Harness) { match &((l.pr(0) + &(l.go(1) + l.po(2))) + l.gr(3)) + l.po(4) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree280(l: &Leaves, s: &[T], h: &mut Harness) { match &((&(s[0] * l.po(0)) + l.gr(1)) + l.pr(2)) + l.go(3) { e => h.go(&e, &mut || evaluate(&e)) } }
fn tree281(l: &Leaves, s: &[T], h: &mut Harness) { match &((&(l.po(0) + l.go(1)) + l.pr(2)) + l.gr(3)) + l.po(4) { e => h.go(&e, &mut || evaluate(&e)) } }
pub const TREES: &[Tree] = &[
    Tree { name: "s*A", operators: 1, leaves: 1, run: tree0, model: |x, s| s[0] * x[0] },
    Tree { name: "s*&A", operators: 1, leaves: 1, run: tree1, model: |x, s| s[0] * x[0] },
    Tree { name: "A*s", operators: 1, leaves: 1, run: tree2, model: |x, s| x[0] * s[0] },
    Tree { name: "&A*s", operators: 1, leaves: 1, run: tree3, model: |x, s| x[0] * s[0] },
    Tree { name: "A+B", operators: 1, leaves: 2, run: tree4, model: |x, s| x[0] + x[1] },
    Tree { name: "&A+B", operators: 1, leaves: 2, run: tree5, model: |x, s| x[0] + x[1] },
    Tree { name: "A+&B", operators: 1, leaves: 2, run: tree6, model: |x, s| x[0] + x[1] },
    Tree { name: "&A+&B", operators: 1, leaves: 2, run: tree7, model: |x, s| x[0] + x[1] },
    Tree { name: "s*(t*A)", operators: 2, leaves: 1, run: tree8, model: |x, s| s[0] * (s[1] * x[0]) },
    Tree { name: "s*(t*&A)", operators: 2, leaves: 1, run: tree9, model: |x, s| s[0] * (s[1] * x[0]) },
    Tree { name: "s*(A*t)", operators: 2, leaves: 1, run: tree10, model: |x, s| s[0] * (x[0] * s[1]) },
    Tree { name: "s*(&A*t)", operators: 2, leaves: 1, run: tree11, model: |x, s| s[0] * (x[0] * s[1]) },
    Tree { name: "s*&(t*A)", operators: 2, leaves: 1, run: tree12, model: |x, s| s[0] * (s[1] * x[0]) },
    Tree { name: "s*&(t*&A)", operators: 2, leaves: 1, run: tree13, model: |x, s| s[0] * (s[1] * x[0]) },
    Tree { name: "s*&(A*t)", operators: 2, leaves: 1, run: tree14, model: |x, s| s[0] * (x[0] * s[1]) },
    Tree { name: "s*&(&A*t)", operators: 2, leaves: 1, run: tree15, model: |x, s| s[0] * (x[0] * s[1]) },
    Tree { name: "(t*A)*s", operators: 2, leaves: 1, run: tree16, model: |x, s| (s[1] * x[0]) * s[0] },
    Tree { name: "(t*&A)*s", operators: 2, leaves: 1, run: tree17, model: |x, s| (s[1] * x[0]) * s[0] },
    Tree { name: "(A*t)*s", operators: 2, leaves: 1, run: tree18, model: |x, s| (x[0] * s[1]) * s[0] },
    Tree { name: "(&A*t)*s", operators: 2, leaves: 1, run: tree19, model: |x, s| (x[0] * s[1]) * s[0] },
    Tree { name: "&(t*A)*s", operators: 2, leaves: 1, run: tree20, model: |x, s| (s[1] * x[0]) * s[0] },
    Tree { name: "&(t*&A)*s", operators: 2, leaves: 1, run: tree21, model: |x, s| (s[1] * x[0]) * s[0] },
    Tree { name: "&(A*t)*s", operators: 2, leaves: 1, run: tree22, model: |x, s| (x[0] * s[1]) * s[0] },
    Tree { name: "&(&A*t)*s", operators: 2, leaves: 1, run: tree23, model: |x, s| (x[0] * s[1]) * s[0] },
    Tree { name: "s*(A+B)", operators: 2, leaves: 2, run: tree24, model: |x, s| s[0] * (x[0] + x[1]) },
    Tree { name: "s*(&A+B)", operators: 2, leaves: 2, run: tree25, model: |x, s| s[0] * (x[0] + x[1]) },
    Tree { name: "s*(A+&B)", operators: 2, leaves: 2, run: tree26, model: |x, s| s[0] * (x[0] + x[1]) },
    Tree { name: "s*(&A+&B)", operators: 2, leaves: 2, run: tree27, model: |x, s| s[0] * (x[0] + x[1]) },
    Tree { name: "s*&(A+B)", operators: 2, leaves: 2, run: tree28, model: |x, s| s[0] * (x[0] + x[1]) },
    Tree { name: "s*&(&A+B)", operators: 2, leaves: 2, run: tree29, model: |x, s| s[0] * (x[0] + x[1]) },
    Tree { name: "s*&(A+&B)", operators: 2, leaves: 2, run: tree30, model: |x, s| s[0] * (x[0] + x[1]) },
    Tree { name: "s*&(&A+&B)", operators: 2, leaves: 2, run: tree31, model: |x, s| s[0] * (x[0] + x[1]) },
    Tree { name: "(A+B)*s", operators: 2, leaves: 2, run: tree32, model: |x, s| (x[0] + x[1]) * s[0] },
    Tree { name: "(&A+B)*s", operators: 2, leaves: 2, run: tree33, model: |x, s| (x[0] + x[1]) * s[0] },
    Tree { name: "(A+&B)*s", operators: 2, leaves: 2, run: tree34, model: |x, s| (x[0] + x[1]) * s[0] },
    Tree { name: "(&A+&B)*s", operators: 2, leaves: 2, run: tree35, model: |x, s| (x[0] + x[1]) * s[0] },
    Tree { name: "&(A+B)*s", operators: 2, leaves: 2, run: tree36, model: |x, s| (x[0] + x[1]) * s[0] },
    Tree { name: "&(&A+B)*s", operators: 2, leaves: 2, run: tree37, model: |x, s| (x[0] + x[1]) * s[0] },
    Tree { name: "&(A+&B)*s", operators: 2, leaves: 2, run: tree38, model: |x, s| (x[0] + x[1]) * s[0] },
    Tree { name: "&(&A+&B)*s", operators: 2, leaves: 2, run: tree39, model: |x, s| (x[0] + x[1]) * s[0] },
    Tree { name: "A+(s*B)", operators: 2, leaves: 2, run: tree40, model: |x, s| x[0] + (s[0] * x[1]) },
    Tree { name: "A+(s*&B)", operators: 2, leaves: 2, run: tree41, model: |x, s| x[0] + (s[0] * x[1]) },
    Tree { name: "A+(B*s)", operators: 2, leaves: 2, run: tree42, model: |x, s| x[0] + (x[1] * s[0]) },
    Tree { name: "A+(&B*s)", operators: 2, leaves: 2, run: tree43, model: |x, s| x[0] + (x[1] * s[0]) },
    Tree { name: "&A+(s*B)", operators: 2, leaves: 2, run: tree44, model: |x, s| x[0] + (s[0] * x[1]) },
    Tree { name: "&A+(s*&B)", operators: 2, leaves: 2, run: tree45, model: |x, s| x[0] + (s[0] * x[1]) },
    Tree { name: "&A+(B*s)", operators: 2, leaves: 2, run: tree46, model: |x, s| x[0] + (x[1] * s[0]) },
    Tree { name: "&A+(&B*s)", operators: 2, leaves: 2, run: tree47, model: |x, s| x[0] + (x[1] * s[0]) },
    Tree { name: "A+&(s*B)", operators: 2, leaves: 2, run: tree48, model: |x, s| x[0] + (s[0] * x[1]) },
    Tree { name: "A+&(s*&B)", operators: 2, leaves: 2, run: tree49, model: |x, s| x[0] + (s[0] * x[1]) },
    Tree { name: "A+&(B*s)", operators: 2, leaves: 2, run: tree50, model: |x, s| x[0] + (x[1] * s[0]) },
    Tree { name: "A+&(&B*s)", operators: 2, leaves: 2, run: tree51, model: |x, s| x[0] + (x[1] * s[0]) },
    Tree { name: "&A+&(s*B)", operators: 2, leaves: 2, run: tree52, model: |x, s| x[0] + (s[0] * x[1]) },
    Tree { name: "&A+&(s*&B)", operators: 2, leaves: 2, run: tree53, model: |x, s| x[0] + (s[0] * x[1]) },
    Tree { name: "&A+&(B*s)", operators: 2, leaves: 2, run: tree54, model: |x, s| x[0] + (x[1] * s[0]) },
    Tree { name: "&A+&(&B*s)", operators: 2, leaves: 2, run: tree55, model: |x, s| x[0] + (x[1] * s[0]) },
    Tree { name: "A+(B+C)", operators: 2, leaves: 3, run: tree56, model: |x, s| x[0] + (x[1] + x[2]) },
    Tree { name: "A+(&B+C)", operators: 2, leaves: 3, run: tree57, model: |x, s| x[0] + (x[1] + x[2]) },
    Tree { name: "A+(B+&C)", operators: 2, leaves: 3, run: tree58, model: |x, s| x[0] + (x[1] + x[2]) },
    Tree { name: "A+(&B+&C)", operators: 2, leaves: 3, run: tree59, model: |x, s| x[0] + (x[1] + x[2]) },
    Tree { name: "&A+(B+C)", operators: 2, leaves: 3, run: tree60, model: |x, s| x[0] + (x[1] + x[2]) },
    Tree { name: "&A+(&B+C)", operators: 2, leaves: 3, run: tree61, model: |x, s| x[0] + (x[1] + x[2]) },
    Tree { name: "&A+(B+&C)", operators: 2, leaves: 3, run: tree62, model: |x, s| x[0] + (x[1] + x[2]) },
    Tree { name: "&A+(&B+&C)", operators: 2, leaves: 3, run: tree63, model: |x, s| x[0] + (x[1] + x[2]) },
    Tree { name: "A+&(B+C)", operators: 2, leaves: 3, run: tree64, model: |x, s| x[0] + (x[1] + x[2]) },
    Tree { name: "A+&(&B+C)", operators: 2, leaves: 3, run: tree65, model: |x, s| x[0] + (x[1] + x[2]) },
    Tree { name: "A+&(B+&C)", operators: 2, leaves: 3, run: tree66, model: |x, s| x[0] + (x[1] + x[2]) },
    Tree { name: "A+&(&B+&C)", operators: 2, leaves: 3, run: tree67, model: |x, s| x[0] + (x[1] + x[2]) },
    Tree { name: "&A+&(B+C)", operators: 2, leaves: 3, run: tree68, model: |x, s| x[0] + (x[1] + x[2]) },
    Tree { name: "&A+&(&B+C)", operators: 2, leaves: 3, run: tree69, model: |x, s| x[0] + (x[1] + x[2]) },
    Tree { name: "&A+&(B+&C)", operators: 2, leaves: 3, run: tree70, model: |x, s| x[0] + (x[1] + x[2]) },
    Tree { name: "&A+&(&B+&C)", operators: 2, leaves: 3, run: tree71, model: |x, s| x[0] + (x[1] + x[2]) },
    Tree { name: "(s*A)+B", operators: 2, leaves: 2, run: tree72, model: |x, s| (s[0] * x[0]) + x[1] },
    Tree { name: "(s*&A)+B", operators: 2, leaves: 2, run: tree73, model: |x, s| (s[0] * x[0]) + x[1] },
    Tree { name: "(A*s)+B", operators: 2, leaves: 2, run: tree74, model: |x, s| (x[0] * s[0]) + x[1] },
    Tree { name: "(&A*s)+B", operators: 2, leaves: 2, run: tree75, model: |x, s| (x[0] * s[0]) + x[1] },
    Tree { name: "&(s*A)+B", operators: 2, leaves: 2, run: tree76, model: |x, s| (s[0] * x[0]) + x[1] },
    Tree { name: "&(s*&A)+B", operators: 2, leaves: 2, run: tree77, model: |x, s| (s[0] * x[0]) + x[1] },
    Tree { name: "&(A*s)+B", operators: 2, leaves: 2, run: tree78, model: |x, s| (x[0] * s[0]) + x[1] },
    Tree { name: "&(&A*s)+B", operators: 2, leaves: 2, run: tree79, model: |x, s| (x[0] * s[0]) + x[1] },
    Tree { name: "(s*A)+&B", operators: 2, leaves: 2, run: tree80, model: |x, s| (s[0] * x[0]) + x[1] },
    Tree { name: "(s*&A)+&B", operators: 2, leaves: 2, run: tree81, model: |x, s| (s[0] * x[0]) + x[1] },
    Tree { name: "(A*s)+&B", operators: 2, leaves: 2, run: tree82, model: |x, s| (x[0] * s[0]) + x[1] },
    Tree { name: "(&A*s)+&B", operators: 2, leaves: 2, run: tree83, model: |x, s| (x[0] * s[0]) + x[1] },
    Tree { name: "&(s*A)+&B", operators: 2, leaves: 2, run: tree84, model: |x, s| (s[0] * x[0]) + x[1] },
    Tree { name: "&(s*&A)+&B", operators: 2, leaves: 2, run: tree85, model: |x, s| (s[0] * x[0]) + x[1] },
    Tree { name: "&(A*s)+&B", operators: 2, leaves: 2, run: tree86, model: |x, s| (x[0] * s[0]) + x[1] },
    Tree { name: "&(&A*s)+&B", operators: 2, leaves: 2, run: tree87, model: |x, s| (x[0] * s[0]) + x[1] },
    Tree { name: "(A+B)+C", operators: 2, leaves: 3, run: tree88, model: |x, s| (x[0] + x[1]) + x[2] },
    Tree { name: "(&A+B)+C", operators: 2, leaves: 3, run: tree89, model: |x, s| (x[0] + x[1]) + x[2] },
    Tree { name: "(A+&B)+C", operators: 2, leaves: 3, run: tree90, model: |x, s| (x[0] + x[1]) + x[2] },
    Tree { name: "(&A+&B)+C", operators: 2, leaves: 3, run: tree91, model: |x, s| (x[0] + x[1]) + x[2] },
    Tree { name: "&(A+B)+C", operators: 2, leaves: 3, run: tree92, model: |x, s| (x[0] + x[1]) + x[2] },
    Tree { name: "&(&A+B)+C", operators: 2, leaves: 3, run: tree93, model: |x, s| (x[0] + x[1]) + x[2] },
    Tree { name: "&(A+&B)+C", operators: 2, leaves: 3, run: tree94, model: |x, s| (x[0] + x[1]) + x[2] },
    Tree { name: "&(&A+&B)+C", operators: 2, leaves: 3, run: tree95, model: |x, s| (x[0] + x[1]) + x[2] },
    Tree { name: "(A+B)+&C", operators: 2, leaves: 3, run: tree96, model: |x, s| (x[0] + x[1]) + x[2] },
    Tree { name: "(&A+B)+&C", operators: 2, leaves: 3, run: tree97, model: |x, s| (x[0] + x[1]) + x[2] },
    Tree { name: "(A+&B)+&C", operators: 2, leaves: 3, run: tree98, model: |x, s| (x[0] + x[1]) + x[2] },
    Tree { name: "(&A+&B)+&C", operators: 2, leaves: 3, run: tree99, model: |x, s| (x[0] + x[1]) + x[2] },
    Tree { name: "&(A+B)+&C", operators: 2, leaves: 3, run: tree100, model: |x, s| (x[0] + x[1]) + x[2] },
    Tree { name: "&(&A+B)+&C", operators: 2, leaves: 3, run: tree101, model: |x, s| (x[0] + x[1]) + x[2] },
    Tree { name: "&(A+&B)+&C", operators: 2, leaves: 3, run: tree102, model: |x, s| (x[0] + x[1]) + x[2] },
    Tree { name: "&(&A+&B)+&C", operators: 2, leaves: 3, run: tree103, model: |x, s| (x[0] + x[1]) + x[2] },
    Tree { name: "s*(t*(u*A))", operators: 3, leaves: 1, run: tree104, model: |x, s| s[0] * (s[1] * (s[2] * x[0])) },
    Tree { name: "&(&(&A*u)*t)*s", operators: 3, leaves: 1, run: tree105, model: |x, s| ((x[0] * s[2]) * s[1]) * s[0] },
    Tree { name: "s*&((&A*u)*t)", operators: 3, leaves: 1, run: tree106, model: |x, s| s[0] * ((x[0] * s[2]) * s[1]) },
    Tree { name: "(t*&(u*A))*s", operators: 3, leaves: 1, run: tree107, model: |x, s| (s[1] * (s[2] * x[0])) * s[0] },
    Tree { name: "s*(t*(A+B))", operators: 3, leaves: 2, run: tree108, model: |x, s| s[0] * (s[1] * (x[0] + x[1])) },
    Tree { name: "&(&(&A+&B)*t)*s", operators: 3, leaves: 2, run: tree109, model: |x, s| ((x[0] + x[1]) * s[1]) * s[0] },
    Tree { name: "s*&((&A+&B)*t)", operators: 3, leaves: 2, run: tree110, model: |x, s| s[0] * ((x[0] + x[1]) * s[1]) },
    Tree { name: "(t*&(A+B))*s", operators: 3, leaves: 2, run: tree111, model: |x, s| (s[1] * (x[0] + x[1])) * s[0] },
    Tree { name: "s*(A+(t*B))", operators: 3, leaves: 2, run: tree112, model: |x, s| s[0] * (x[0] + (s[1] * x[1])) },
    Tree { name: "&(&A+&(&B*t))*s", operators: 3, leaves: 2, run: tree113, model: |x, s| (x[0] + (x[1] * s[1])) * s[0] },
    Tree { name: "s*&(A+&(&B*t))", operators: 3, leaves: 2, run: tree114, model: |x, s| s[0] * (x[0] + (x[1] * s[1])) },
    Tree { name: "(&A+(t*B))*s", operators: 3, leaves: 2, run: tree115, model: |x, s| (x[0] + (s[1] * x[1])) * s[0] },
    Tree { name: "s*(A+(B+C))", operators: 3, leaves: 3, run: tree116, model: |x, s| s[0] * (x[0] + (x[1] + x[2])) },
    Tree { name: "&(&A+&(&B+&C))*s", operators: 3, leaves: 3, run: tree117, model: |x, s| (x[0] + (x[1] + x[2])) * s[0] },
    Tree { name: "s*&(A+&(&B+&C))", operators: 3, leaves: 3, run: tree118, model: |x, s| s[0] * (x[0] + (x[1] + x[2])) },
    Tree { name: "(&A+(B+C))*s", operators: 3, leaves: 3, run: tree119, model: |x, s| (x[0] + (x[1] + x[2])) * s[0] },
    Tree { name: "s*((t*A)+B)", operators: 3, leaves: 2, run: tree120, model: |x, s| s[0] * ((s[1] * x[0]) + x[1]) },
    Tree { name: "&(&(&A*t)+&B)*s", operators: 3, leaves: 2, run: tree121, model: |x, s| ((x[0] * s[1]) + x[1]) * s[0] },
    Tree { name: "s*&((&A*t)+&B)", operators: 3, leaves: 2, run: tree122, model: |x, s| s[0] * ((x[0] * s[1]) + x[1]) },
    Tree { name: "(&(t*A)+B)*s", operators: 3, leaves: 2, run: tree123, model: |x, s| ((s[1] * x[0]) + x[1]) * s[0] },
    Tree { name: "s*((A+B)+C)", operators: 3, leaves: 3, run: tree124, model: |x, s| s[0] * ((x[0] + x[1]) + x[2]) },
    Tree { name: "&(&(&A+&B)+&C)*s", operators: 3, leaves: 3, run: tree125, model: |x, s| ((x[0] + x[1]) + x[2]) * s[0] },
    Tree { name: "s*&((&A+&B)+&C)", operators: 3, leaves: 3, run: tree126, model: |x, s| s[0] * ((x[0] + x[1]) + x[2]) },
    Tree { name: "(&(A+B)+C)*s", operators: 3, leaves: 3, run: tree127, model: |x, s| ((x[0] + x[1]) + x[2]) * s[0] },
    Tree { name: "A+(s*(t*B))", operators: 3, leaves: 2, run: tree128, model: |x, s| x[0] + (s[0] * (s[1] * x[1])) },
    Tree { name: "&A+&(&(&B*t)*s)", operators: 3, leaves: 2, run: tree129, model: |x, s| x[0] + ((x[1] * s[1]) * s[0]) },
    Tree { name: "&A+((&B*t)*s)", operators: 3, leaves: 2, run: tree130, model: |x, s| x[0] + ((x[1] * s[1]) * s[0]) },
    Tree { name: "A+&(s*&(t*B))", operators: 3, leaves: 2, run: tree131, model: |x, s| x[0] + (s[0] * (s[1] * x[1])) },
    Tree { name: "A+(s*(B+C))", operators: 3, leaves: 3, run: tree132, model: |x, s| x[0] + (s[0] * (x[1] + x[2])) },
    Tree { name: "&A+&(&(&B+&C)*s)", operators: 3, leaves: 3, run: tree133, model: |x, s| x[0] + ((x[1] + x[2]) * s[0]) },
    Tree { name: "&A+((&B+&C)*s)", operators: 3, leaves: 3, run: tree134, model: |x, s| x[0] + ((x[1] + x[2]) * s[0]) },
    Tree { name: "A+&(s*&(B+C))", operators: 3, leaves: 3, run: tree135, model: |x, s| x[0] + (s[0] * (x[1] + x[2])) },
    Tree { name: "A+(B+(s*C))", operators: 3, leaves: 3, run: tree136, model: |x, s| x[0] + (x[1] + (s[0] * x[2])) },
    Tree { name: "&A+&(&B+&(&C*s))", operators: 3, leaves: 3, run: tree137, model: |x, s| x[0] + (x[1] + (x[2] * s[0])) },
    Tree { name: "&A+(B+&(&C*s))", operators: 3, leaves: 3, run: tree138, model: |x, s| x[0] + (x[1] + (x[2] * s[0])) },
    Tree { name: "A+&(&B+(s*C))", operators: 3, leaves: 3, run: tree139, model: |x, s| x[0] + (x[1] + (s[0] * x[2])) },
    Tree { name: "A+(B+(C+D))", operators: 3, leaves: 4, run: tree140, model: |x, s| x[0] + (x[1] + (x[2] + x[3])) },
    Tree { name: "&A+&(&B+&(&C+&D))", operators: 3, leaves: 4, run: tree141, model: |x, s| x[0] + (x[1] + (x[2] + x[3])) },
    Tree { name: "&A+(B+&(&C+&D))", operators: 3, leaves: 4, run: tree142, model: |x, s| x[0] + (x[1] + (x[2] + x[3])) },
    Tree { name: "A+&(&B+(C+D))", operators: 3, leaves: 4, run: tree143, model: |x, s| x[0] + (x[1] + (x[2] + x[3])) },
    Tree { name: "A+((s*B)+C)", operators: 3, leaves: 3, run: tree144, model: |x, s| x[0] + ((s[0] * x[1]) + x[2]) },
    Tree { name: "&A+&(&(&B*s)+&C)", operators: 3, leaves: 3, run: tree145, model: |x, s| x[0] + ((x[1] * s[0]) + x[2]) },
    Tree { name: "&A+((&B*s)+&C)", operators: 3, leaves: 3, run: tree146, model: |x, s| x[0] + ((x[1] * s[0]) + x[2]) },
    Tree { name: "A+&(&(s*B)+C)", operators: 3, leaves: 3, run: tree147, model: |x, s| x[0] + ((s[0] * x[1]) + x[2]) },
    Tree { name: "A+((B+C)+D)", operators: 3, leaves: 4, run: tree148, model: |x, s| x[0] + ((x[1] + x[2]) + x[3]) },
    Tree { name: "&A+&(&(&B+&C)+&D)", operators: 3, leaves: 4, run: tree149, model: |x, s| x[0] + ((x[1] + x[2]) + x[3]) },
    Tree { name: "&A+((&B+&C)+&D)", operators: 3, leaves: 4, run: tree150, model: |x, s| x[0] + ((x[1] + x[2]) + x[3]) },
    Tree { name: "A+&(&(B+C)+D)", operators: 3, leaves: 4, run: tree151, model: |x, s| x[0] + ((x[1] + x[2]) + x[3]) },
    Tree { name: "(s*A)+(t*B)", operators: 3, leaves: 2, run: tree152, model: |x, s| (s[0] * x[0]) + (s[1] * x[1]) },
    Tree { name: "&(&A*s)+&(&B*t)", operators: 3, leaves: 2, run: tree153, model: |x, s| (x[0] * s[0]) + (x[1] * s[1]) },
    Tree { name: "&(A*s)+(&B*t)", operators: 3, leaves: 2, run: tree154, model: |x, s| (x[0] * s[0]) + (x[1] * s[1]) },
    Tree { name: "(s*&A)+&(t*B)", operators: 3, leaves: 2, run: tree155, model: |x, s| (s[0] * x[0]) + (s[1] * x[1]) },
    Tree { name: "(s*A)+(B+C)", operators: 3, leaves: 3, run: tree156, model: |x, s| (s[0] * x[0]) + (x[1] + x[2]) },
    Tree { name: "&(&A*s)+&(&B+&C)", operators: 3, leaves: 3, run: tree157, model: |x, s| (x[0] * s[0]) + (x[1] + x[2]) },
    Tree { name: "&(A*s)+(&B+&C)", operators: 3, leaves: 3, run: tree158, model: |x, s| (x[0] * s[0]) + (x[1] + x[2]) },
    Tree { name: "(s*&A)+&(B+C)", operators: 3, leaves: 3, run: tree159, model: |x, s| (s[0] * x[0]) + (x[1] + x[2]) },
    Tree { name: "(A+B)+(s*C)", operators: 3, leaves: 3, run: tree160, model: |x, s| (x[0] + x[1]) + (s[0] * x[2]) },
    Tree { name: "&(&A+&B)+&(&C*s)", operators: 3, leaves: 3, run: tree161, model: |x, s| (x[0] + x[1]) + (x[2] * s[0]) },
    Tree { name: "&(A+&B)+(&C*s)", operators: 3, leaves: 3, run: tree162, model: |x, s| (x[0] + x[1]) + (x[2] * s[0]) },
    Tree { name: "(&A+B)+&(s*C)", operators: 3, leaves: 3, run: tree163, model: |x, s| (x[0] + x[1]) + (s[0] * x[2]) },
    Tree { name: "(A+B)+(C+D)", operators: 3, leaves: 4, run: tree164, model: |x, s| (x[0] + x[1]) + (x[2] + x[3]) },
    Tree { name: "&(&A+&B)+&(&C+&D)", operators: 3, leaves: 4, run: tree165, model: |x, s| (x[0] + x[1]) + (x[2] + x[3]) },
    Tree { name: "&(A+&B)+(&C+&D)", operators: 3, leaves: 4, run: tree166, model: |x, s| (x[0] + x[1]) + (x[2] + x[3]) },
    Tree { name: "(&A+B)+&(C+D)", operators: 3, leaves: 4, run: tree167, model: |x, s| (x[0] + x[1]) + (x[2] + x[3]) },
    Tree { name: "(s*(t*A))+B", operators: 3, leaves: 2, run: tree168, model: |x, s| (s[0] * (s[1] * x[0])) + x[1] },
    Tree { name: "&(&(&A*t)*s)+&B", operators: 3, leaves: 2, run: tree169, model: |x, s| ((x[0] * s[1]) * s[0]) + x[1] },
    Tree { name: "&((&A*t)*s)+B", operators: 3, leaves: 2, run: tree170, model: |x, s| ((x[0] * s[1]) * s[0]) + x[1] },
    Tree { name: "(s*&(t*A))+&B", operators: 3, leaves: 2, run: tree171, model: |x, s| (s[0] * (s[1] * x[0])) + x[1] },
    Tree { name: "(s*(A+B))+C", operators: 3, leaves: 3, run: tree172, model: |x, s| (s[0] * (x[0] + x[1])) + x[2] },
    Tree { name: "&(&(&A+&B)*s)+&C", operators: 3, leaves: 3, run: tree173, model: |x, s| ((x[0] + x[1]) * s[0]) + x[2] },
    Tree { name: "&((&A+&B)*s)+C", operators: 3, leaves: 3, run: tree174, model: |x, s| ((x[0] + x[1]) * s[0]) + x[2] },
    Tree { name: "(s*&(A+B))+&C", operators: 3, leaves: 3, run: tree175, model: |x, s| (s[0] * (x[0] + x[1])) + x[2] },
    Tree { name: "(A+(s*B))+C", operators: 3, leaves: 3, run: tree176, model: |x, s| (x[0] + (s[0] * x[1])) + x[2] },
    Tree { name: "&(&A+&(&B*s))+&C", operators: 3, leaves: 3, run: tree177, model: |x, s| (x[0] + (x[1] * s[0])) + x[2] },
    Tree { name: "&(A+&(&B*s))+C", operators: 3, leaves: 3, run: tree178, model: |x, s| (x[0] + (x[1] * s[0])) + x[2] },
    Tree { name: "(&A+(s*B))+&C", operators: 3, leaves: 3, run: tree179, model: |x, s| (x[0] + (s[0] * x[1])) + x[2] },
    Tree { name: "(A+(B+C))+D", operators: 3, leaves: 4, run: tree180, model: |x, s| (x[0] + (x[1] + x[2])) + x[3] },
    Tree { name: "&(&A+&(&B+&C))+&D", operators: 3, leaves: 4, run: tree181, model: |x, s| (x[0] + (x[1] + x[2])) + x[3] },
    Tree { name: "&(A+&(&B+&C))+D", operators: 3, leaves: 4, run: tree182, model: |x, s| (x[0] + (x[1] + x[2])) + x[3] },
    Tree { name: "(&A+(B+C))+&D", operators: 3, leaves: 4, run: tree183, model: |x, s| (x[0] + (x[1] + x[2])) + x[3] },
    Tree { name: "((s*A)+B)+C", operators: 3, leaves: 3, run: tree184, model: |x, s| ((s[0] * x[0]) + x[1]) + x[2] },
    Tree { name: "&(&(&A*s)+&B)+&C", operators: 3, leaves: 3, run: tree185, model: |x, s| ((x[0] * s[0]) + x[1]) + x[2] },
    Tree { name: "&((&A*s)+&B)+C", operators: 3, leaves: 3, run: tree186, model: |x, s| ((x[0] * s[0]) + x[1]) + x[2] },
    Tree { name: "(&(s*A)+B)+&C", operators: 3, leaves: 3, run: tree187, model: |x, s| ((s[0] * x[0]) + x[1]) + x[2] },
    Tree { name: "((A+B)+C)+D", operators: 3, leaves: 4, run: tree188, model: |x, s| ((x[0] + x[1]) + x[2]) + x[3] },
    Tree { name: "&(&(&A+&B)+&C)+&D", operators: 3, leaves: 4, run: tree189, model: |x, s| ((x[0] + x[1]) + x[2]) + x[3] },
    Tree { name: "&((&A+&B)+&C)+D", operators: 3, leaves: 4, run: tree190, model: |x, s| ((x[0] + x[1]) + x[2]) + x[3] },
    Tree { name: "(&(A+B)+C)+&D", operators: 3, leaves: 4, run: tree191, model: |x, s| ((x[0] + x[1]) + x[2]) + x[3] },
    Tree { name: "s*&((&(v*A)*u)*t)", operators: 4, leaves: 1, run: tree192, model: |x, s| s[0] * (((s[3] * x[0]) * s[2]) * s[1]) },
    Tree { name: "s*&((&(A+B)*u)*t)", operators: 4, leaves: 2, run: tree193, model: |x, s| s[0] * (((x[0] + x[1]) * s[2]) * s[1]) },
    Tree { name: "s*&((&A+&(u*B))*t)", operators: 4, leaves: 2, run: tree194, model: |x, s| s[0] * ((x[0] + (s[2] * x[1])) * s[1]) },
    Tree { name: "s*&((&A+&(B+C))*t)", operators: 4, leaves: 3, run: tree195, model: |x, s| s[0] * ((x[0] + (x[1] + x[2])) * s[1]) },
    Tree { name: "s*&((&(u*A)+&B)*t)", operators: 4, leaves: 2, run: tree196, model: |x, s| s[0] * (((s[2] * x[0]) + x[1]) * s[1]) },
    Tree { name: "s*&((&(A+B)+&C)*t)", operators: 4, leaves: 3, run: tree197, model: |x, s| s[0] * (((x[0] + x[1]) + x[2]) * s[1]) },
    Tree { name: "s*&(A+&(&(u*B)*t))", operators: 4, leaves: 2, run: tree198, model: |x, s| s[0] * (x[0] + ((s[2] * x[1]) * s[1])) },
    Tree { name: "s*&(A+&(&(B+C)*t))", operators: 4, leaves: 3, run: tree199, model: |x, s| s[0] * (x[0] + ((x[1] + x[2]) * s[1])) },
    Tree { name: "s*&(A+&(&B+&(t*C)))", operators: 4, leaves: 3, run: tree200, model: |x, s| s[0] * (x[0] + (x[1] + (s[1] * x[2]))) },
    Tree { name: "s*&(A+&(&B+&(C+D)))", operators: 4, leaves: 4, run: tree201, model: |x, s| s[0] * (x[0] + (x[1] + (x[2] + x[3]))) },
    Tree { name: "s*&(A+&(&(t*B)+&C))", operators: 4, leaves: 3, run: tree202, model: |x, s| s[0] * (x[0] + ((s[1] * x[1]) + x[2])) },
    Tree { name: "s*&(A+&(&(B+C)+&D))", operators: 4, leaves: 4, run: tree203, model: |x, s| s[0] * (x[0] + ((x[1] + x[2]) + x[3])) },
    Tree { name: "s*&((&A*t)+&(u*B))", operators: 4, leaves: 2, run: tree204, model: |x, s| s[0] * ((x[0] * s[1]) + (s[2] * x[1])) },
    Tree { name: "s*&((&A*t)+&(B+C))", operators: 4, leaves: 3, run: tree205, model: |x, s| s[0] * ((x[0] * s[1]) + (x[1] + x[2])) },
    Tree { name: "s*&((&A+&B)+&(t*C))", operators: 4, leaves: 3, run: tree206, model: |x, s| s[0] * ((x[0] + x[1]) + (s[1] * x[2])) },
    Tree { name: "s*&((&A+&B)+&(C+D))", operators: 4, leaves: 4, run: tree207, model: |x, s| s[0] * ((x[0] + x[1]) + (x[2] + x[3])) },
    Tree { name: "s*&((&(u*A)*t)+&B)", operators: 4, leaves: 2, run: tree208, model: |x, s| s[0] * (((s[2] * x[0]) * s[1]) + x[1]) },
    Tree { name: "s*&((&(A+B)*t)+&C)", operators: 4, leaves: 3, run: tree209, model: |x, s| s[0] * (((x[0] + x[1]) * s[1]) + x[2]) },
    Tree { name: "s*&((&A+&(t*B))+&C)", operators: 4, leaves: 3, run: tree210, model: |x, s| s[0] * ((x[0] + (s[1] * x[1])) + x[2]) },
    Tree { name: "s*&((&A+&(B+C))+&D)", operators: 4, leaves: 4, run: tree211, model: |x, s| s[0] * ((x[0] + (x[1] + x[2])) + x[3]) },
    Tree { name: "s*&((&(t*A)+&B)+&C)", operators: 4, leaves: 3, run: tree212, model: |x, s| s[0] * (((s[1] * x[0]) + x[1]) + x[2]) },
    Tree { name: "s*&((&(A+B)+&C)+&D)", operators: 4, leaves: 4, run: tree213, model: |x, s| s[0] * (((x[0] + x[1]) + x[2]) + x[3]) },
    Tree { name: "&A+((&(u*B)*t)*s)", operators: 4, leaves: 2, run: tree214, model: |x, s| x[0] + (((s[2] * x[1]) * s[1]) * s[0]) },
    Tree { name: "&A+((&(B+C)*t)*s)", operators: 4, leaves: 3, run: tree215, model: |x, s| x[0] + (((x[1] + x[2]) * s[1]) * s[0]) },
    Tree { name: "&A+((&B+&(t*C))*s)", operators: 4, leaves: 3, run: tree216, model: |x, s| x[0] + ((x[1] + (s[1] * x[2])) * s[0]) },
    Tree { name: "&A+((&B+&(C+D))*s)", operators: 4, leaves: 4, run: tree217, model: |x, s| x[0] + ((x[1] + (x[2] + x[3])) * s[0]) },
    Tree { name: "&A+((&(t*B)+&C)*s)", operators: 4, leaves: 3, run: tree218, model: |x, s| x[0] + (((s[1] * x[1]) + x[2]) * s[0]) },
    Tree { name: "&A+((&(B+C)+&D)*s)", operators: 4, leaves: 4, run: tree219, model: |x, s| x[0] + (((x[1] + x[2]) + x[3]) * s[0]) },
    Tree { name: "&A+(B+&(&(t*C)*s))", operators: 4, leaves: 3, run: tree220, model: |x, s| x[0] + (x[1] + ((s[1] * x[2]) * s[0])) },
    Tree { name: "&A+(B+&(&(C+D)*s))", operators: 4, leaves: 4, run: tree221, model: |x, s| x[0] + (x[1] + ((x[2] + x[3]) * s[0])) },
    Tree { name: "&A+(B+&(&C+&(s*D)))", operators: 4, leaves: 4, run: tree222, model: |x, s| x[0] + (x[1] + (x[2] + (s[0] * x[3]))) },
    Tree { name: "&A+(B+&(&C+&(D+E)))", operators: 4, leaves: 5, run: tree223, model: |x, s| x[0] + (x[1] + (x[2] + (x[3] + x[4]))) },
    Tree { name: "&A+(B+&(&(s*C)+&D))", operators: 4, leaves: 4, run: tree224, model: |x, s| x[0] + (x[1] + ((s[0] * x[2]) + x[3])) },
    Tree { name: "&A+(B+&(&(C+D)+&E))", operators: 4, leaves: 5, run: tree225, model: |x, s| x[0] + (x[1] + ((x[2] + x[3]) + x[4])) },
    Tree { name: "&A+((&B*s)+&(t*C))", operators: 4, leaves: 3, run: tree226, model: |x, s| x[0] + ((x[1] * s[0]) + (s[1] * x[2])) },
    Tree { name: "&A+((&B*s)+&(C+D))", operators: 4, leaves: 4, run: tree227, model: |x, s| x[0] + ((x[1] * s[0]) + (x[2] + x[3])) },
    Tree { name: "&A+((&B+&C)+&(s*D))", operators: 4, leaves: 4, run: tree228, model: |x, s| x[0] + ((x[1] + x[2]) + (s[0] * x[3])) },
    Tree { name: "&A+((&B+&C)+&(D+E))", operators: 4, leaves: 5, run: tree229, model: |x, s| x[0] + ((x[1] + x[2]) + (x[3] + x[4])) },
    Tree { name: "&A+((&(t*B)*s)+&C)", operators: 4, leaves: 3, run: tree230, model: |x, s| x[0] + (((s[1] * x[1]) * s[0]) + x[2]) },
    Tree { name: "&A+((&(B+C)*s)+&D)", operators: 4, leaves: 4, run: tree231, model: |x, s| x[0] + (((x[1] + x[2]) * s[0]) + x[3]) },
    Tree { name: "&A+((&B+&(s*C))+&D)", operators: 4, leaves: 4, run: tree232, model: |x, s| x[0] + ((x[1] + (s[0] * x[2])) + x[3]) },
    Tree { name: "&A+((&B+&(C+D))+&E)", operators: 4, leaves: 5, run: tree233, model: |x, s| x[0] + ((x[1] + (x[2] + x[3])) + x[4]) },
    Tree { name: "&A+((&(s*B)+&C)+&D)", operators: 4, leaves: 4, run: tree234, model: |x, s| x[0] + (((s[0] * x[1]) + x[2]) + x[3]) },
    Tree { name: "&A+((&(B+C)+&D)+&E)", operators: 4, leaves: 5, run: tree235, model: |x, s| x[0] + (((x[1] + x[2]) + x[3]) + x[4]) },
    Tree { name: "&(A*s)+(&(u*B)*t)", operators: 4, leaves: 2, run: tree236, model: |x, s| (x[0] * s[0]) + ((s[2] * x[1]) * s[1]) },
    Tree { name: "&(A*s)+(&(B+C)*t)", operators: 4, leaves: 3, run: tree237, model: |x, s| (x[0] * s[0]) + ((x[1] + x[2]) * s[1]) },
    Tree { name: "&(A*s)+(&B+&(t*C))", operators: 4, leaves: 3, run: tree238, model: |x, s| (x[0] * s[0]) + (x[1] + (s[1] * x[2])) },
    Tree { name: "&(A*s)+(&B+&(C+D))", operators: 4, leaves: 4, run: tree239, model: |x, s| (x[0] * s[0]) + (x[1] + (x[2] + x[3])) },
    Tree { name: "&(A*s)+(&(t*B)+&C)", operators: 4, leaves: 3, run: tree240, model: |x, s| (x[0] * s[0]) + ((s[1] * x[1]) + x[2]) },
    Tree { name: "&(A*s)+(&(B+C)+&D)", operators: 4, leaves: 4, run: tree241, model: |x, s| (x[0] * s[0]) + ((x[1] + x[2]) + x[3]) },
    Tree { name: "&(A+&B)+(&(t*C)*s)", operators: 4, leaves: 3, run: tree242, model: |x, s| (x[0] + x[1]) + ((s[1] * x[2]) * s[0]) },
    Tree { name: "&(A+&B)+(&(C+D)*s)", operators: 4, leaves: 4, run: tree243, model: |x, s| (x[0] + x[1]) + ((x[2] + x[3]) * s[0]) },
    Tree { name: "&(A+&B)+(&C+&(s*D))", operators: 4, leaves: 4, run: tree244, model: |x, s| (x[0] + x[1]) + (x[2] + (s[0] * x[3])) },
    Tree { name: "&(A+&B)+(&C+&(D+E))", operators: 4, leaves: 5, run: tree245, model: |x, s| (x[0] + x[1]) + (x[2] + (x[3] + x[4])) },
    Tree { name: "&(A+&B)+(&(s*C)+&D)", operators: 4, leaves: 4, run: tree246, model: |x, s| (x[0] + x[1]) + ((s[0] * x[2]) + x[3]) },
    Tree { name: "&(A+&B)+(&(C+D)+&E)", operators: 4, leaves: 5, run: tree247, model: |x, s| (x[0] + x[1]) + ((x[2] + x[3]) + x[4]) },
    Tree { name: "&((&A*t)*s)+(u*B)", operators: 4, leaves: 2, run: tree248, model: |x, s| ((x[0] * s[1]) * s[0]) + (s[2] * x[1]) },
    Tree { name: "&((&A*t)*s)+(B+C)", operators: 4, leaves: 3, run: tree249, model: |x, s| ((x[0] * s[1]) * s[0]) + (x[1] + x[2]) },
    Tree { name: "&((&A+&B)*s)+(t*C)", operators: 4, leaves: 3, run: tree250, model: |x, s| ((x[0] + x[1]) * s[0]) + (s[1] * x[2]) },
    Tree { name: "&((&A+&B)*s)+(C+D)", operators: 4, leaves: 4, run: tree251, model: |x, s| ((x[0] + x[1]) * s[0]) + (x[2] + x[3]) },
    Tree { name: "&(A+&(&B*s))+(t*C)", operators: 4, leaves: 3, run: tree252, model: |x, s| (x[0] + (x[1] * s[0])) + (s[1] * x[2]) },
    Tree { name: "&(A+&(&B*s))+(C+D)", operators: 4, leaves: 4, run: tree253, model: |x, s| (x[0] + (x[1] * s[0])) + (x[2] + x[3]) },
    Tree { name: "&(A+&(&B+&C))+(s*D)", operators: 4, leaves: 4, run: tree254, model: |x, s| (x[0] + (x[1] + x[2])) + (s[0] * x[3]) },
    Tree { name: "&(A+&(&B+&C))+(D+E)", operators: 4, leaves: 5, run: tree255, model: |x, s| (x[0] + (x[1] + x[2])) + (x[3] + x[4]) },
    Tree { name: "&((&A*s)+&B)+(t*C)", operators: 4, leaves: 3, run: tree256, model: |x, s| ((x[0] * s[0]) + x[1]) + (s[1] * x[2]) },
    Tree { name: "&((&A*s)+&B)+(C+D)", operators: 4, leaves: 4, run: tree257, model: |x, s| ((x[0] * s[0]) + x[1]) + (x[2] + x[3]) },
    Tree { name: "&((&A+&B)+&C)+(s*D)", operators: 4, leaves: 4, run: tree258, model: |x, s| ((x[0] + x[1]) + x[2]) + (s[0] * x[3]) },
    Tree { name: "&((&A+&B)+&C)+(D+E)", operators: 4, leaves: 5, run: tree259, model: |x, s| ((x[0] + x[1]) + x[2]) + (x[3] + x[4]) },
    Tree { name: "&((&(u*A)*t)*s)+B", operators: 4, leaves: 2, run: tree260, model: |x, s| (((s[2] * x[0]) * s[1]) * s[0]) + x[1] },
    Tree { name: "&((&(A+B)*t)*s)+C", operators: 4, leaves: 3, run: tree261, model: |x, s| (((x[0] + x[1]) * s[1]) * s[0]) + x[2] },
    Tree { name: "&((&A+&(t*B))*s)+C", operators: 4, leaves: 3, run: tree262, model: |x, s| ((x[0] + (s[1] * x[1])) * s[0]) + x[2] },
    Tree { name: "&((&A+&(B+C))*s)+D", operators: 4, leaves: 4, run: tree263, model: |x, s| ((x[0] + (x[1] + x[2])) * s[0]) + x[3] },
    Tree { name: "&((&(t*A)+&B)*s)+C", operators: 4, leaves: 3, run: tree264, model: |x, s| (((s[1] * x[0]) + x[1]) * s[0]) + x[2] },
    Tree { name: "&((&(A+B)+&C)*s)+D", operators: 4, leaves: 4, run: tree265, model: |x, s| (((x[0] + x[1]) + x[2]) * s[0]) + x[3] },
    Tree { name: "&(A+&(&(t*B)*s))+C", operators: 4, leaves: 3, run: tree266, model: |x, s| (x[0] + ((s[1] * x[1]) * s[0])) + x[2] },
    Tree { name: "&(A+&(&(B+C)*s))+D", operators: 4, leaves: 4, run: tree267, model: |x, s| (x[0] + ((x[1] + x[2]) * s[0])) + x[3] },
    Tree { name: "&(A+&(&B+&(s*C)))+D", operators: 4, leaves: 4, run: tree268, model: |x, s| (x[0] + (x[1] + (s[0] * x[2]))) + x[3] },
    Tree { name: "&(A+&(&B+&(C+D)))+E", operators: 4, leaves: 5, run: tree269, model: |x, s| (x[0] + (x[1] + (x[2] + x[3]))) + x[4] },
    Tree { name: "&(A+&(&(s*B)+&C))+D", operators: 4, leaves: 4, run: tree270, model: |x, s| (x[0] + ((s[0] * x[1]) + x[2])) + x[3] },
    Tree { name: "&(A+&(&(B+C)+&D))+E", operators: 4, leaves: 5, run: tree271, model: |x, s| (x[0] + ((x[1] + x[2]) + x[3])) + x[4] },
    Tree { name: "&((&A*s)+&(t*B))+C", operators: 4, leaves: 3, run: tree272, model: |x, s| ((x[0] * s[0]) + (s[1] * x[1])) + x[2] },
    Tree { name: "&((&A*s)+&(B+C))+D", operators: 4, leaves: 4, run: tree273, model: |x, s| ((x[0] * s[0]) + (x[1] + x[2])) + x[3] },
    Tree { name: "&((&A+&B)+&(s*C))+D", operators: 4, leaves: 4, run: tree274, model: |x, s| ((x[0] + x[1]) + (s[0] * x[2])) + x[3] },
    Tree { name: "&((&A+&B)+&(C+D))+E", operators: 4, leaves: 5, run: tree275, model: |x, s| ((x[0] + x[1]) + (x[2] + x[3])) + x[4] },
    Tree { name: "&((&(t*A)*s)+&B)+C", operators: 4, leaves: 3, run: tree276, model: |x, s| (((s[1] * x[0]) * s[0]) + x[1]) + x[2] },
    Tree { name: "&((&(A+B)*s)+&C)+D", operators: 4, leaves: 4, run: tree277, model: |x, s| (((x[0] + x[1]) * s[0]) + x[2]) + x[3] },
    Tree { name: "&((&A+&(s*B))+&C)+D", operators: 4, leaves: 4, run: tree278, model: |x, s| ((x[0] + (s[0] * x[1])) + x[2]) + x[3] },
    Tree { name: "&((&A+&(B+C))+&D)+E", operators: 4, leaves: 5, run: tree279, model: |x, s| ((x[0] + (x[1] + x[2])) + x[3]) + x[4] },
    Tree { name: "&((&(s*A)+&B)+&C)+D", operators: 4, leaves: 4, run: tree280, model: |x, s| (((s[0] * x[0]) + x[1]) + x[2]) + x[3] },
    Tree { name: "&((&(A+B)+&C)+&D)+E", operators: 4, leaves: 5, run: tree281, model: |x, s| (((x[0] + x[1]) + x[2]) + x[3]) + x[4] },
];
