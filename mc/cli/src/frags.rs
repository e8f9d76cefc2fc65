//! Small pieces of DM, each raising diagnostics of one kind only.

/// (option, how many diagnostics of it the piece raises, the piece)
/// The option is "" for the diagnostics that no option governs.
pub const FRAGS: &[(&str, usize, &str)] = &[
    // DreamChecker
    ("disabled_directive", 2, "/datum/f0/proc/a()\n\tset SpacemanDMM_should_not_sleep = 0\n/datum/f0/proc/b()\n\tset SpacemanDMM_private_proc = FALSE\n"),
    ("sets_directive_twice", 1, "/datum/f1/proc/a()\n\tset SpacemanDMM_should_be_pure = 1\n\tset SpacemanDMM_should_be_pure = 1\n"),
    ("invalid_lint_directive_value", 2, "/datum/f2/proc/a()\n\tset SpacemanDMM_should_be_pure = 2\n/datum/f2/proc/b()\n\tset SpacemanDMM_should_not_override = \"yes\"\n"),
    ("invalid_set_value", 3, "/mob/f3/verb/a()\n\tset background = 2\n/mob/f3/verb/b()\n\tset name = 4\n/mob/f3/verb/c()\n\tset invisibility = 101\n"),
    ("unknown_linter_setting", 1, "/datum/f4/proc/a()\n\tset SpacemanDMM_no_such_thing = 1\n"),
    ("override_missing_keyword_arg", 1, "/datum/f5/proc/a(x, y)\n/datum/f5/b/a(x)\n/proc/f5()\n\tvar/datum/f5/d = new\n\td.a(y = 2)\n"),
    ("must_not_override", 1, "/datum/f6/proc/a()\n\tset SpacemanDMM_should_not_override = 1\n/datum/f6/b/a()\n"),
    ("must_call_parent", 1, "/datum/f7/proc/a()\n\tset SpacemanDMM_should_call_parent = 1\n/datum/f7/b/a()\n"),
    ("must_not_call_parent", 1, "/datum/f8/proc/a()\n\tset SpacemanDMM_should_not_call_parent = 1\n/datum/f8/b/a()\n\treturn ..()\n"),
    ("final_var", 1, "/datum/f9/var/SpacemanDMM_final/v = 1\n/datum/f9/b/v = 2\n"),
    ("private_proc", 3, "/datum/f10/proc/a()\n\tset SpacemanDMM_private_proc = 1\n/datum/f10/b/proc/c()\n\ta()\n/datum/f10/d/a()\n/proc/f10()\n\tvar/datum/f10/d = new\n\td.a()\n"),
    ("private_proc", 1, "/datum/f11/proc/a()\n\tset SpacemanDMM_private_proc = 1\n/datum/f11/b\n\tvar/k\n/datum/f11/proc/c()\n\tvar/datum/f11/b/d = new\n\td.a()\n"),
    ("protected_proc", 1, "/datum/f12/proc/a()\n\tset SpacemanDMM_protected_proc = 1\n/proc/f12()\n\tvar/datum/f12/d = new\n\td.a()\n"),
    ("private_var", 1, "/datum/f13/var/SpacemanDMM_private/v = 1\n/datum/f13/b/v = 2\n"),
    ("private_var", 1, "/datum/f14/var/SpacemanDMM_private/v = 1\n/proc/f14()\n\tvar/datum/f14/d = new\n\td.v = 3\n"),
    ("protected_var", 1, "/datum/f15/var/SpacemanDMM_protected/v = 1\n/proc/f15()\n\tvar/datum/f15/d = new\n\treturn d.v\n"),
    ("must_be_pure", 1, "/datum/f16/var/v\n/datum/f16/proc/a()\n\tset SpacemanDMM_should_be_pure = 1\n\tv = 2\n"),
    ("must_be_pure", 1, "/datum/f17/var/v\n/datum/f17/proc/a()\n\tset SpacemanDMM_should_be_pure = 1\n\treturn b()\n/datum/f17/proc/b()\n\tv = 2\n"),
    ("must_be_pure", 1, "/datum/f18/var/v\n/datum/f18/proc/a()\n\tset SpacemanDMM_should_be_pure = 1\n\treturn b()\n/datum/f18/proc/b()\n/datum/f18/c/b()\n\tv = 2\n"),
    ("must_not_sleep", 1, "/datum/f19/proc/a()\n\tset SpacemanDMM_should_not_sleep = 1\n\tsleep(1)\n"),
    ("must_not_sleep", 1, "/datum/f20/proc/a()\n\tset SpacemanDMM_should_not_sleep = 1\n\tb()\n/datum/f20/proc/b()\n\tsleep(1)\n"),
    ("redefined_proc", 1, "/datum/f21/proc/a()\n/datum/f21/a()\n"),
    ("ambiguous_in_lhs", 4, "/proc/f22(a, b, list/c)\n\tif(!a in c)\n\t\treturn 1\n\tif(a & b in c)\n\t\treturn 2\n\tif(a ? b : b in c)\n\t\treturn 3\n\tif(a = b in c)\n\t\treturn 4\n"),
    ("ambiguous_not_bitwise", 1, "/proc/f23(a, b)\n\treturn !a & b\n"),
    ("no_typehint_implicit_new", 1, "/proc/f24()\n\tvar/a = new\n\treturn a\n"),
    ("field_access_static_type", 1, "/proc/f25(a)\n\treturn a.name\n"),
    ("proc_call_static_type", 1, "/proc/f26(a)\n\treturn a.New()\n"),
    ("proc_has_no_parent", 1, "/datum/f27/proc/a()\n\treturn ..()\n"),
    ("no_operator_overload", 2, "/datum/f28/var/k\n/proc/f28()\n\tvar/datum/f28/d = new\n\td++\n\t--d\n\treturn d\n"),
    ("unreachable_code", 1, "/proc/f29()\n\treturn 1\n\tworld.log << 2\n"),
    ("control_condition_static", 1, "/proc/f30(a)\n\tif(1 == 2)\n\t\ta = 1\n\treturn a\n"),
    ("if_condition_determinate", 1, "/proc/f31(a)\n\tif(!0)\n\t\ta = 1\n\treturn a\n"),
    ("loop_condition_determinate", 1, "/proc/f32(a)\n\tfor(var/i = 1; !0; i++)\n\t\tif(a)\n\t\t\tbreak\n\treturn a\n"),
    ("improper_index", 1, "/datum/f33/var/k\n/proc/f33()\n\tvar/datum/f33/d = new\n\treturn d[1]\n"),
    // lexer
    ("integer_precision_loss", 1, "/datum/f34/var/v = 2147483649\n"),
    // parser
    ("var_in_proc_parameter", 1, "/proc/f35(var/a)\n\treturn a\n"),
    ("static_in_proc_parameter", 1, "/proc/f36(static/a)\n\treturn a\n"),
    ("semicolon_in_proc_parameter", 1, "/proc/f37(a;)\n\treturn a\n"),
    ("in_precedes_as", 1, "/proc/f38(list/c)\n\treturn input(usr, \"a\") in c as num\n"),
    ("tmp_no_effect", 1, "/proc/f39()\n\tvar/tmp/a = 1\n\treturn a\n"),
    ("final_no_effect", 1, "/proc/f40()\n\tvar/SpacemanDMM_final/a = 1\n\treturn a\n"),
    ("as_local_var", 1, "/proc/f41()\n\tvar/a as num\n\treturn a\n"),
    // preprocessor
    ("duplicate_include", 1, "#include \"other.dm\"\n#include \"other.dm\"\n"),
    ("macro_redefined", 1, "#define F43 1\n#define F43 2\n/datum/f43/var/v = F43\n"),
    ("macro_undefined_no_definition", 1, "#undef F44\n"),
    // object tree
    ("override_precedes_definition", 1, "/datum/f45/a()\n\tset SpacemanDMM_can_be_redefined = 1\n/datum/f45/proc/a()\n"),
    // nothing governs these
    ("", 1, "/proc/f46()\n\treturn no_such_thing\n"),
    ("", 1, "/datum/f47/var/v = no_such_thing\n"),
    ("", 1, "#warn careful\n"),
];

/// Every option of the documentation.
pub fn options() -> Vec<&'static str> {
    let mut v: Vec<&str> = vec![];
    for f in FRAGS {
        if !f.0.is_empty() && !v.contains(&f.0) {
            v.push(f.0);
        }
    }
    v
}
