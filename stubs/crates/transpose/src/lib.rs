pub fn transpose<T: Copy>(input: &[T], output: &mut [T], w: usize, h: usize) { for i in 0..h { for j in 0..w { output[j * h + i] = input[i * w + j]; } } }
pub fn transpose_inplace<T: Copy>(buf: &mut [T], scratch: &mut [T], w: usize, h: usize) { let c = buf.to_vec(); transpose(&c, buf, w, h); let _ = scratch; }
