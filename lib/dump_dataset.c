#include <stdio.h>
#include "test_dataset.h"
#ifdef EXT
#undef EXT
#endif
int main(int argc, char **argv)
{
    FILE *f = fopen(argv[1], "wb");
    int dims[3] = {nb_samples, nn_input_size, nn_output_size};
    fwrite(dims, sizeof dims, 1, f);
    fwrite(nn_test_inputs, sizeof(T), (size_t)nb_samples * nn_input_size, f);
    fclose(f);
    return 0;
}
