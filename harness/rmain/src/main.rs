fn main() {
    checks::run::main(|| checks::Env::new(rzoo::targets(), rzoo::metas(), rzoo::shared(), rzoo::lent()));
}
