pub fn encode<T: AsRef<[u8]>>(d: T) -> String { d.as_ref().iter().map(|b| format!("{:02x}", b)).collect() }
