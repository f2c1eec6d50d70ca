"""Contracts of the external functions the repository calls.

One line per function:   name  RET  [attributes...]
RET   b    1 = success, 0 = failure
      s    > 0 = success, <= 0 (down to -2) = failure
      n    >= 0 = success, -1 = failure
      p:K  a fresh object of kind K, or NULL = failure (allocation / decoding / arithmetic failed)
      q    pointer into another object, NULL = failure
      g    pointer that may legitimately be absent (NULL)
      G    pointer that is never NULL for a valid argument
      i    plain integer value          i:LO:HI  with range
      v    void
attributes
      fr:N     releases argument N (NULL allowed)
      own:N    takes ownership of argument N when it succeeds
      ownA:N   takes ownership of argument N unconditionally
      out:N    stores through pointer argument N
      outp:N   stores a pointer borrowed from another object through argument N (may be NULL)
      outP:N   same, never NULL on success
      cb       may be ignored: failure is impossible or harmless for a valid argument (reason in comment)
      noret    does not return
      ret:N    returns argument N on success
"""

TABLE = r"""
ASN1_BIT_STRING_free v fr:0
ASN1_INTEGER_free v fr:0
ASN1_INTEGER_to_BN p:BN
ASN1_OBJECT_create p:ASN1_OBJECT
ASN1_OBJECT_free v fr:0
ASN1_OCTET_STRING_free v fr:0
ASN1_OCTET_STRING_new p:ASN1_STRING
ASN1_OCTET_STRING_set b
ASN1_STRING_free v fr:0
ASN1_STRING_get0_data G
ASN1_STRING_length i:0:2147483647
ASN1_STRING_new p:ASN1_STRING
ASN1_STRING_set b
ASN1_TYPE_free v fr:0
ASN1_TYPE_get i:0:2147483647
ASN1_TYPE_new p:ASN1_TYPE
ASN1_TYPE_set v ownA:2
ASN1_item_d2i p:ASN1 out:1
ASN1_item_free v fr:0
ASN1_item_i2d len out:1
ASN1_item_new p:ASN1
BIO_indent s cb
BIO_printf s cb
BN_CTX_end v
BN_CTX_free v fr:0
BN_CTX_get q
BN_CTX_new p:BN_CTX
BN_CTX_secure_new p:BN_CTX
BN_CTX_start v
BN_bin2bn p:BN
BN_bn2bin i:0:2147483647 out:1
BN_bn2lebinpad n out:1
BN_bn2binpad n out:1
BN_clear_free v fr:0
BN_cmp i:-1:1
BN_div b
BN_dup p:BN
BN_copy q
BN_free v fr:0
BN_hex2bn b outalloc:0:BN
BN_is_negative i:0:1
BN_is_zero i:0:1
BN_is_one i:0:1
BN_lebin2bn p:BN
BN_mod_add b
BN_mod_inverse q
BN_mod_mul b
BN_mod_sub b
BN_mod b
BN_mul b
BN_add b
BN_new p:BN
BN_nnmod b
BN_num_bits i:0:2147483647
BN_print s cb
BN_rand_range b
BN_priv_rand_range b
BN_secure_new p:BN
BN_set_word b
BN_sub b
BN_ucmp i:-1:1
BN_set_flags v
BUF_reverse v out:0
CMAC_CTX_copy b
CMAC_CTX_free v fr:0
CMAC_CTX_new p:CMAC_CTX
CMAC_Final b out:1 out:2
CMAC_Init b
CMAC_Update b
CMS_RecipientInfo_get0_pkey_ctx g
CMS_RecipientInfo_kari_get0_alg b outp:1 outp:2
CMS_RecipientInfo_kari_get0_ctx g
CMS_RecipientInfo_kari_get0_orig_id b outp:1 outp:2
CMS_RecipientInfo_ktri_get0_algs b outp:1 outp:2 outp:3
CMS_RecipientInfo_type i
CMS_SignerInfo_get0_algs v outp:1 outp:2 outp:3 outp:4
CRYPTO_free v fr:0
CRYPTO_clear_free v fr:0 wipe:0
CRYPTO_malloc p:mem size:0
CRYPTO_memcmp i:-2147483648:2147483647
CRYPTO_secure_free v fr:0
CRYPTO_secure_clear_free v fr:0 wipe:0
CRYPTO_secure_malloc p:smem size:0
CRYPTO_secure_zalloc p:smem size:0 zero
CRYPTO_set_mem_functions b cb
CRYPTO_strdup p:mem
CRYPTO_memdup p:mem size:1
CRYPTO_zalloc p:mem size:0 zero
ECDSA_SIG_free v fr:0
ECDSA_SIG_get0 v outP:1 outP:2
ECDSA_SIG_new p:ECDSA_SIG
ECDSA_SIG_set0 b own:1 own:2
EC_GROUP_free v fr:0
EC_GROUP_get0_field G
EC_GROUP_get0_order G
EC_GROUP_get_curve_name i:0:2147483647
EC_GROUP_get_order b
EC_GROUP_new_curve_GFp p:EC_GROUP
EC_GROUP_set_curve_name v
EC_GROUP_set_generator b
EC_KEY_check_key b
EC_KEY_free v fr:0
EC_KEY_get0_group g
EC_KEY_get0_private_key g
EC_KEY_get0_public_key g
EC_KEY_new p:EC_KEY
EC_KEY_set_group b
EC_KEY_set_private_key b
EC_KEY_set_public_key b
EC_POINT_cmp i:-1:1
EC_POINT_free v fr:0
EC_POINT_clear_free v fr:0
EC_POINT_get_affine_coordinates b
EC_POINT_mul b
EC_POINT_new p:EC_POINT
EC_POINT_set_affine_coordinates b
EC_POINT_set_to_infinity b
EC_POINT_is_at_infinity i:0:1
EC_POINT_is_on_curve i:-1:1
ENGINE_get_static_state G
ENGINE_register_all_complete b cb
ENGINE_register_ciphers b
ENGINE_register_digests b
ENGINE_register_pkey_meths b
ENGINE_set_ciphers b
ENGINE_set_cmd_defns b
ENGINE_set_ctrl_function b
ENGINE_set_destroy_function b
ENGINE_set_digests b
ENGINE_set_finish_function b
ENGINE_set_id b
ENGINE_set_init_function b
ENGINE_set_name b
ENGINE_set_pkey_asn1_meths b
ENGINE_set_pkey_meths b
ENGINE_new p:ENGINE
ENGINE_free s fr:0 cb
ERR_add_error_data v
ERR_get_next_error_library i
ERR_load_strings b cb
ERR_new v
ERR_set_debug v
ERR_set_error v
ERR_unload_strings b cb
EVP_CIPHER_CTX_buf_noconst G
EVP_CIPHER_CTX_cipher g
EVP_CIPHER_CTX_copy b
EVP_CIPHER_CTX_ctrl s
EVP_CIPHER_CTX_free v fr:0
EVP_CIPHER_CTX_get0_cipher g
EVP_CIPHER_CTX_get_app_data g
EVP_CIPHER_CTX_get_block_size i:0:64
EVP_CIPHER_CTX_get_cipher_data g
EVP_CIPHER_CTX_get_iv_length i:0:16
EVP_CIPHER_CTX_get_key_length i:0:64
EVP_CIPHER_CTX_get_nid i
EVP_CIPHER_CTX_get_num i
EVP_CIPHER_CTX_is_encrypting i:0:1
EVP_CIPHER_CTX_iv G
EVP_CIPHER_CTX_iv_noconst G
EVP_CIPHER_CTX_new p:EVP_CIPHER_CTX
EVP_CIPHER_CTX_original_iv G
EVP_CIPHER_CTX_reset b cb
EVP_CIPHER_CTX_set_app_data v
EVP_CIPHER_CTX_set_flags v
EVP_CIPHER_CTX_set_key_length b
EVP_CIPHER_CTX_set_num b cb
EVP_CIPHER_CTX_set_padding b cb
EVP_CIPHER_CTX_set_params b
EVP_CIPHER_asn1_to_param s
EVP_CIPHER_fetch p:EVP_CIPHER
EVP_CIPHER_free v fr:0
EVP_CIPHER_get0_provider g
EVP_CIPHER_get_block_size i:0:64
EVP_CIPHER_get_flags i
EVP_CIPHER_get_iv_length i:0:16
EVP_CIPHER_get_key_length i:0:64
EVP_CIPHER_get_mode i
EVP_CIPHER_is_a i:0:1
EVP_CIPHER_meth_free v fr:0
EVP_CIPHER_meth_new p:EVP_CIPHER_METH
EVP_CIPHER_meth_set_cleanup b
EVP_CIPHER_meth_set_ctrl b
EVP_CIPHER_meth_set_do_cipher b
EVP_CIPHER_meth_set_flags b
EVP_CIPHER_meth_set_get_asn1_params b
EVP_CIPHER_meth_set_impl_ctx_size b
EVP_CIPHER_meth_set_init b
EVP_CIPHER_meth_set_iv_length b
EVP_CIPHER_meth_set_set_asn1_params b
EVP_CIPHER_param_to_asn1 s
EVP_Cipher cipher out:1
EVP_CipherFinal b out:1 out:2
EVP_CipherFinal_ex b out:1 out:2
EVP_CipherInit_ex b
EVP_CipherUpdate b out:1 out:2
EVP_DecryptInit_ex b
EVP_DigestFinal b out:1 out:2
EVP_DigestFinalXOF b out:1
EVP_DigestFinal_ex b out:1 out:2
EVP_DigestInit_ex b
EVP_DigestSignFinal s out:1 out:2
EVP_DigestSignInit s
EVP_DigestSignUpdate s
EVP_DigestUpdate b
EVP_EncryptInit_ex b
EVP_MD_CTX_copy b
EVP_MD_CTX_copy_ex b
EVP_MD_CTX_ctrl l0 out:3
EVP_MD_CTX_free v fr:0
EVP_MD_CTX_get0_md_data g
EVP_MD_CTX_md g
EVP_MD_CTX_new p:EVP_MD_CTX
EVP_MD_CTX_reset b cb
EVP_MD_CTX_set_flags v
EVP_MD_get0_name g
EVP_MD_get_block_size i
EVP_MD_get_flags i
EVP_MD_get_size i
EVP_MD_get_type i
EVP_MD_is_a i:0:1
EVP_MD_meth_free v fr:0
EVP_MD_meth_get_ctrl G
EVP_MD_meth_get_init G
EVP_MD_meth_new p:EVP_MD_METH
EVP_MD_meth_set_app_datasize b
EVP_MD_meth_set_cleanup b
EVP_MD_meth_set_copy b
EVP_MD_meth_set_ctrl b
EVP_MD_meth_set_final b
EVP_MD_meth_set_flags b
EVP_MD_meth_set_init b
EVP_MD_meth_set_input_blocksize b
EVP_MD_meth_set_result_size b
EVP_MD_meth_set_update b
EVP_PKEY_CTX_ctrl s
EVP_PKEY_CTX_get0_peerkey g
EVP_PKEY_CTX_get0_pkey g
EVP_PKEY_CTX_get_data g
EVP_PKEY_CTX_set_data v ownA:1
EVP_PKEY_asn1_new p:AMETH
EVP_PKEY_asn1_set_ctrl v
EVP_PKEY_asn1_set_free v
EVP_PKEY_asn1_set_param v
EVP_PKEY_asn1_set_private v
EVP_PKEY_asn1_set_public v
EVP_PKEY_asn1_set_security_bits v
EVP_PKEY_asn1_free v fr:0
EVP_PKEY_assign b own:2
EVP_PKEY_copy_parameters b
EVP_PKEY_derive s out:1 out:2
EVP_PKEY_derive_set_peer s
EVP_PKEY_free v fr:0
EVP_PKEY_get0 g
EVP_PKEY_get_base_id i
EVP_PKEY_get_default_digest_nid s out:1
EVP_PKEY_get_id i
EVP_PKEY_meth_free v fr:0
EVP_PKEY_meth_new p:PMETH
EVP_PKEY_meth_set_check v
EVP_PKEY_meth_set_cleanup v
EVP_PKEY_meth_set_copy v
EVP_PKEY_meth_set_ctrl v
EVP_PKEY_meth_set_decrypt v
EVP_PKEY_meth_set_derive v
EVP_PKEY_meth_set_encrypt v
EVP_PKEY_meth_set_init v
EVP_PKEY_meth_set_keygen v
EVP_PKEY_meth_set_paramgen v
EVP_PKEY_meth_set_public_check v
EVP_PKEY_meth_set_sign v
EVP_PKEY_meth_set_signctx v
EVP_PKEY_meth_set_verify v
EVP_PKEY_missing_parameters i:0:1
EVP_PKEY_new p:EVP_PKEY
EVP_PKEY_new_mac_key p:EVP_PKEY
EVP_PKEY_set_type b
EVP_add_cipher b
EVP_add_digest b
EVP_get_cipherbyname g
EVP_get_digestbyname g
HMAC_CTX_free v fr:0
HMAC_CTX_new p:HMAC_CTX
HMAC_CTX_reset b cb
HMAC_Final b out:1 out:2
HMAC_Init_ex b
HMAC_Update b
OBJ_NAME_add i
OBJ_NAME_remove i
OBJ_add_object i
OBJ_new_nid i
OBJ_create i
OBJ_nid2ln g
OBJ_nid2obj g
OBJ_nid2sn g
OBJ_obj2nid i:0:2147483647
OBJ_txt2nid i:0:2147483647
OBJ_txt2obj p:ASN1_OBJECT
OPENSSL_cleanse v wipe:0 out:0
OPENSSL_die v noret
OPENSSL_hexstr2buf p:mem out:1
OPENSSL_init_crypto b cb
OSSL_LIB_CTX_new p:OSSL_LIB_CTX
OSSL_LIB_CTX_free v fr:0
OSSL_PARAM_construct_size_t v
OSSL_PARAM_get_int b out:1
OSSL_PARAM_get_octet_string b out:1 out:3
OSSL_PARAM_get_octet_string_ptr b outp:1 out:2
OSSL_PARAM_get_size_t b out:1
OSSL_PARAM_get_uint b out:1
OSSL_PARAM_locate g
OSSL_PARAM_locate_const g
OSSL_PARAM_set_int b
OSSL_PARAM_set_octet_ptr b
OSSL_PARAM_set_octet_string b
OSSL_PARAM_set_size_t b
OSSL_PARAM_set_utf8_ptr b
PKCS7_RECIP_INFO_get0_alg v outp:1
PKCS7_SIGNER_INFO_get0_algs v outp:1 outp:2 outp:3
PKCS8_pkey_get0 b outp:0 outp:1 out:2 outp:3
PKCS8_pkey_set0 b own:1 own:4 own:5
RAND_bytes s out:0
RAND_priv_bytes s out:0
X509_ALGOR_get0 v outp:0 out:1 outp:2
X509_ALGOR_set0 b own:1 own:3
X509_PUBKEY_free v fr:0
X509_PUBKEY_get p:EVP_PKEY
X509_PUBKEY_get0_param b outp:0 outp:1 out:2 outp:3
X509_PUBKEY_new p:X509_PUBKEY
X509_PUBKEY_set b outalloc:0:X509_PUBKEY
X509_PUBKEY_set0_param b own:1 own:3 own:4
X509at_add1_attr_by_OBJ q
X509at_get0_data_by_OBJ g
atoi i
close i
d2i_ASN1_INTEGER p:ASN1_INTEGER out:1
d2i_ASN1_OBJECT p:ASN1_OBJECT out:1
d2i_ASN1_OCTET_STRING p:ASN1_STRING out:1
d2i_ASN1_TYPE p:ASN1_TYPE out:1
exit v noret
abort v noret
__assert_fail v noret
feof i
fgetc i
fgets g out:0
fileno i
fopen p:FILE
fclose i fr:0
fprintf i
fputs i
fputc i
putchar i
puts i
fread i:0:9223372036854775807 out:0
ferror i
free v fr:0
getenv g
getopt i
i2d_ASN1_OBJECT len out:1
i2d_ASN1_OCTET_STRING len out:1
i2d_ASN1_TYPE len out:1
malloc p:cmem size:0
calloc p:cmem zero
realloc p:cmem
memcmp i
bcmp i
open n
perror v
printf i
read n out:1
sprintf i out:0
snprintf i out:0
strchr g
strrchr g
strcmp i
strcpy i out:0
strlen i:0:9223372036854775807
strncmp i
strcasecmp i
strtol i out:1
strtoul i out:1
toupper i:-1:255
tolower i:-1:255
proverr_new_handle p:PROVERR
proverr_free_handle v fr:0
proverr_new_error v
proverr_set_error_debug v
proverr_set_error v
memcpy v out:0
memset v out:0
ASN1_STRING_clear_free v fr:0
ASN1_STRING_dup p:ASN1_STRING
ASN1_OCTET_STRING_dup p:ASN1_STRING
ASN1_STRING_copy b
ASN1_STRING_cmp i
ASN1_STRING_data G
ASN1_OCTET_STRING_cmp i
ASN1_INTEGER_new p:ASN1_INTEGER
ASN1_INTEGER_get i
ASN1_INTEGER_set b
BN_to_ASN1_INTEGER p:ASN1_INTEGER
OBJ_dup p:ASN1_OBJECT
OBJ_cmp i
OBJ_sn2nid i:0:2147483647
OBJ_ln2nid i:0:2147483647
OBJ_obj2txt i
EVP_PKEY_parameters_eq i:-2:1
EVP_PKEY_eq i:-2:1
EVP_PKEY_up_ref b
EVP_PKEY_size i
EVP_PKEY_get_size i
EVP_PKEY_dup p:EVP_PKEY
EVP_PKEY_CTX_new p:EVP_PKEY_CTX
EVP_PKEY_CTX_free v fr:0
EVP_PKEY_CTX_dup p:EVP_PKEY_CTX
EC_KEY_dup p:EC_KEY
EC_KEY_copy q
EC_KEY_up_ref b
EC_KEY_generate_key b
EC_GROUP_dup p:EC_GROUP
EC_GROUP_cmp i:-1:1
EC_GROUP_get0_generator G
EC_GROUP_get0_cofactor G
EC_GROUP_get_cofactor b
EC_GROUP_get_degree i
EC_GROUP_order_bits i
EC_POINT_copy b
EC_POINT_dup p:EC_POINT
EC_POINT_add b
EC_POINT_dbl b
EC_POINT_invert b
BN_CTX_secure_new_ex p:BN_CTX
BN_CTX_new_ex p:BN_CTX
BN_swap v
BN_clear v wipe:0
BN_zero_ex v
BN_one b
BN_value_one G
BN_is_word i:0:1
BN_is_odd i:0:1
BN_abs_is_word i:0:1
BN_get_word i
BN_set_negative v
BN_set_bit b
BN_clear_bit b
BN_mask_bits b
BN_is_bit_set i:0:1
BN_lshift b
BN_rshift b
BN_lshift1 b
BN_rshift1 b
BN_sqr b
BN_exp b
BN_mod_exp b
BN_mod_exp_mont b
BN_mod_exp_mont_consttime b
BN_mod_sqr b
BN_mod_word i
BN_add_word b
BN_sub_word b
BN_gcd b
BN_rand b
BN_priv_rand b
BN_pseudo_rand b
BN_bn2hex p:mem
BN_bn2dec p:mem
BN_bn2nativepad n out:1
BN_native2bn p:BN
BN_with_flags v
BN_get_flags i
BN_dec2bn b outalloc:0:BN
BN_security_bits i
BN_check_prime i
BN_MONT_CTX_new p:BN_MONT_CTX
BN_MONT_CTX_free v fr:0
BN_MONT_CTX_set b
ECDSA_SIG_get0_r G
ECDSA_SIG_get0_s G
CRYPTO_strndup p:mem
CRYPTO_realloc p:mem
CRYPTO_clear_realloc p:mem
CRYPTO_THREAD_lock_new p:LOCK
CRYPTO_THREAD_lock_free v fr:0
CRYPTO_THREAD_write_lock b
CRYPTO_THREAD_read_lock b
CRYPTO_THREAD_unlock b
CRYPTO_THREAD_run_once b
CMAC_CTX_cleanup v
CMAC_CTX_get0_cipher_ctx G
CMAC_resume b
HMAC q out:5 out:6
HMAC_CTX_copy b
HMAC_size i
EVP_MD_CTX_get0_md g
EVP_MD_fetch p:EVP_MD
EVP_MD_free v fr:0
EVP_Digest b out:2 out:3
EVP_CIPHER_CTX_set_iv_length b
EVP_CIPHER_CTX_rand_key s out:1
EVP_CIPHER_CTX_get_iv b out:1
EVP_CIPHER_CTX_get_updated_iv b out:1
EVP_CIPHER_CTX_get_original_iv b out:1
EVP_CIPHER_CTX_test_flags i
EVP_CIPHER_CTX_clear_flags v
EVP_CIPHER_CTX_get_mode i
EVP_CIPHER_CTX_get_tag_length i
EVP_CIPHER_get_nid i
EVP_CIPHER_get0_name g
EVP_CipherInit b
EVP_EncryptUpdate b out:1 out:2
EVP_DecryptUpdate b out:1 out:2
EVP_EncryptFinal_ex b out:1 out:2
EVP_DecryptFinal_ex b out:1 out:2
EVP_DigestSign s out:1 out:2
EVP_Q_mac q
EVP_CIPHER_set_asn1_iv s
EVP_CIPHER_get_asn1_iv s
ERR_put_error v
ERR_clear_error v
ERR_peek_error i
ERR_get_error i
ERR_set_mark b cb
ERR_pop_to_mark b cb
ERR_clear_last_mark b cb
OPENSSL_strlcpy i out:0
OPENSSL_strlcat i out:0
OPENSSL_strnlen i
OPENSSL_strcasecmp i
OPENSSL_strncasecmp i
OPENSSL_buf2hexstr p:mem
OSSL_PARAM_get_utf8_string b out:1
OSSL_PARAM_get_utf8_string_ptr b outp:1
OSSL_PARAM_set_uint b
OSSL_PARAM_set_utf8_string b
OSSL_PARAM_get_long b out:1
OSSL_PARAM_get_uint64 b out:1
OSSL_PARAM_construct_int v
OSSL_PARAM_construct_uint v
OSSL_PARAM_construct_end v
OSSL_PARAM_construct_octet_string v
OSSL_PARAM_construct_utf8_string v
OSSL_PARAM_modified i:0:1
RAND_bytes_ex s out:1
RAND_priv_bytes_ex s out:1
RAND_status i:0:1
X509_ALGOR_new p:X509_ALGOR
X509_ALGOR_free v fr:0
X509_ALGOR_dup p:X509_ALGOR
X509_ALGOR_set_md v
X509_ALGOR_cmp i
bcopy v out:1
bzero v out:0
memchr g
strncpy i out:0
strdup p:cmem
strndup p:cmem
strncasecmp i
strstr g
strspn i
strcspn i
strpbrk g
strtok g
strcat i out:0
strncat i out:0
strtoull i out:1
strtoll i out:1
vsnprintf i out:0
fwrite i
fflush i cb
fseek i
ftell i
rewind v
getc i
ungetc i
putc i
getline i
setmode i
isatty i
stat n out:1
fstat n out:1
isspace i
isxdigit i
isdigit i
isalnum i
__ctype_b_loc G
__ctype_tolower_loc G
__ctype_toupper_loc G
__errno_location G
strerror G
_exit v noret
abs i
time i
"""

class Api:
    __slots__ = ("name", "ret", "kind", "lo", "hi", "attrs", "fr", "own", "ownA",
                 "out", "outp", "outP", "outalloc", "cb", "noret", "size", "zero", "wipe")
    def __init__(self, name, ret):
        self.name = name
        self.kind = None
        self.lo = self.hi = None
        if ret.startswith("p:"):
            self.ret, self.kind = "p", ret[2:]
        elif ret.startswith("i:"):
            _, lo, hi = ret.split(":")
            self.ret, self.lo, self.hi = "i", int(lo), int(hi)
        else:
            self.ret = ret
        self.fr, self.own, self.ownA, self.out, self.outp, self.outP = [], [], [], [], [], []
        self.outalloc = {}
        self.cb = self.noret = self.zero = False
        self.size = self.wipe = None

    def fail_range(self):
        """values meaning failure / success, as interval sets (ints)"""
        M = 2**31 - 1
        return {"b": ((0, 0), (1, 1)), "s": ((-2, 0), (1, M)), "n": ((-1, -1), (0, M)),
                "len": ((-1, -1), (1, M)), "l0": ((0, 0), (1, M)), "cipher": ((-1, 0), (1, M))}.get(self.ret)


def load():
    d = {}
    for line in TABLE.splitlines():
        line = line.split("#")[0].split()
        if not line:
            continue
        a = Api(line[0], line[1])
        for t in line[2:]:
            k = t.split(":")
            if k[0] in ("fr", "own", "ownA", "out", "outp", "outP"):
                getattr(a, k[0]).append(int(k[1]))
            elif k[0] == "outalloc":
                a.outalloc[int(k[1])] = k[2]
            elif k[0] in ("cb", "noret", "zero"):
                setattr(a, k[0], True)
            elif k[0] in ("size", "wipe"):
                setattr(a, k[0], int(k[1]))
            else:
                raise SystemExit("api.py: bad attribute " + t)
        d[a.name] = a
    return d

API = load()

def extend(names):
    """external functions that are not in the table: what the naming convention of libcrypto tells"""
    for n in names:
        if n in API or n.startswith(("llvm.", "point_mul")):
            continue
        if n.endswith(("_free", "_clear_free", "_free_all")):
            a = Api(n, "v")
            a.fr = [0]
        elif n.endswith("_new") or n.endswith("_dup"):
            a = Api(n, "p:" + n.rsplit("_", 1)[0])
        else:
            continue
        API[n] = a
