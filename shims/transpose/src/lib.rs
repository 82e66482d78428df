//! Offline stand-in for `transpose` 0.2: input has `height` rows of `width`; output has `width` rows of `height`.
pub fn transpose<T: Copy>(input: &[T], output: &mut [T], width: usize, height: usize) {
    assert_eq!(input.len(), width * height);
    assert_eq!(output.len(), width * height);
    for x in 0..width { for y in 0..height { output[y + x * height] = input[x + y * width]; } }
}
pub fn transpose_inplace<T: Copy>(buf: &mut [T], scratch: &mut [T], width: usize, height: usize) {
    assert_eq!(width * height, buf.len());
    assert_eq!(core::cmp::max(width, height), scratch.len());
    let c = buf.to_vec();
    transpose(&c, buf, width, height);
}
