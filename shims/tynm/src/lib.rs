pub fn type_name<T: ?Sized>() -> String { std::any::type_name::<T>().to_string() }
