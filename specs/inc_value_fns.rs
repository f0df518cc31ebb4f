impl Value {
//@fn val Value::new
//@rewrite /<T: Into<Val>>/<T: ToVal>/
//@rewrite /value\.into\(\)/value.into_val()/
//@rewrite /get_type_size\(type_id\) as usize/value_width(type_id)/
ensures res.value_ == value.sv(), typed(res),
//@endfn
//@fn val Value::is_null
ensures res == (self.value_ is Null),
//@endfn
//@fn val Value::is_numeric
ensures res == is_num(self.value_),
//@endfn
//@fn val Value::get_val
ensures *res == self.value_,
//@endfn
//@fn val Value::get_type_id impl=^impl.Value$
ensures res == self.type_id_,
//@endfn
}
