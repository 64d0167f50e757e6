/* the embedded boot image is not needed to replay a single call */
unsigned char bootstrap_image[1]; unsigned long long int bootstrap_image_len = 0;
