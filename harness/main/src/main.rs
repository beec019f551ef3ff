fn main() {
    checks::run::main(|| checks::Env::new(zoo::targets(), zoo::metas(), zoo::shared(), zoo::lent()));
}
