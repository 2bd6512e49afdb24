mod util; fn main(){}
