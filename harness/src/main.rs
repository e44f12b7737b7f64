mod actual;
mod alloc;
mod driver;
mod files;
mod ledger;
mod model;
mod props;
mod refparse;
mod reftok;
mod reporting;
mod src;
mod tree;

fn main() {
    driver::main()
}
