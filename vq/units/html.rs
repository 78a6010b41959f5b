// name="value" with the value escaped
pub open spec fn html_attr(name: Seq<i8>, value: Seq<i8>) -> Seq<i8> { b" " + name + b"=\"" + esc(value, value.len() as int) + b"\"" }
