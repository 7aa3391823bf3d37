//@include setops
