/* Calls the library the way a C program does: through its header. Each function forwards to one
   function of the library, with its arguments in the order of the documentation. */
#include "image-palette-recoloring.h"

#ifdef __cplusplus
extern "C" {
#endif

image_weights *shim_create_weights(uint32_t width, uint32_t height, const uint8_t *rgb) {
    return create_image_weights(width, height, rgb);
}
void shim_free_weights(image_weights *w) {
    free_image_weights(w);
}
uint8_t *shim_palette(uint32_t width, uint32_t height, const uint8_t *rgb, uint8_t min_size,
                      uint8_t max_size, double error_bound, uint8_t *count) {
    return compute_palette(width, height, rgb, min_size, max_size, error_bound, count);
}
void shim_free_palette(uint8_t *p, uint8_t count) {
    free_computed_palette(p, count);
}
decomposed_image *shim_decompose(const image_weights *w, uint8_t count, const uint8_t *palette) {
    return create_decomposed_image(w, count, palette);
}
void shim_free_decomposed(decomposed_image *d) {
    free_decomposed_image(d);
}
uint32_t shim_width(const decomposed_image *d) {
    return get_decomposed_image_width(d);
}
uint32_t shim_height(const decomposed_image *d) {
    return get_decomposed_image_height(d);
}
uint8_t shim_channels(const decomposed_image *d) {
    return get_decomposed_image_num_channels(d);
}
uint8_t shim_reconstruct(const decomposed_image *d, const uint8_t *palette, uint8_t *out) {
    return reconstruct_image(d, palette, out);
}
uint8_t shim_channel(const decomposed_image *d, uint8_t channel, uint8_t *out) {
    return grayscale_image_channel(d, channel, out);
}
#ifdef __cplusplus
}
#endif
