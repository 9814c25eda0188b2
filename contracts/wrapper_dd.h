/* The address filter of --ddebug. The map is by its contract (the property on vfc_hashmap): a set
 * of addresses, of which only the membership of the instrumented address matters. */
VF_INPUT(uint8_t, has_exclude); /* VFC_DDEBUG_EXCLUDE given */
VF_INPUT(uint8_t, has_include);
VF_INPUT(uint8_t, has_gen);
VF_INPUT(uint8_t, excluded); /* the address is in that file */
VF_INPUT(uint8_t, included);
static struct vfc_hashmap_st the_must, the_mustnot;
static unsigned inserted, odd;
char vfc_hashmap_have(vfc_hashmap_t map, size_t key) {
  if (key != (size_t)in_addr)
    return 0;
  return map == &the_must ? in_included != 0 : in_excluded != 0;
}
void *vfc_hashmap_get(vfc_hashmap_t map, size_t key) {
  return vfc_hashmap_have(map, key) ? (void *)key : NULL;
}
void vfc_hashmap_insert(vfc_hashmap_t map, size_t key, void *item) {
  inserted++;
  if (map != &the_must || key != (size_t)in_addr || item != (void *)in_addr)
    odd++;
}
void vfc_hashmap_remove(vfc_hashmap_t map, size_t key) { odd++; }
size_t vfc_hashmap_num_items(vfc_hashmap_t map) { return 0; }
vfc_hashmap_t vfc_hashmap_create(void) { return &the_must; }
void vfc_hashmap_destroy(vfc_hashmap_t map) {}
void vfc_hashmap_free(vfc_hashmap_t map) {}
size_t get_value_at(size_t *items, size_t i) { return items[2 * i]; }
size_t get_key_at(size_t *items, size_t i) { return items[2 * i + 1]; }
#ifdef DDEBUG
#define DD_NATIVE ((in_has_exclude && in_excluded) || (in_has_include && !in_included))
static void dd_setup(void) {
  VF_GET(has_exclude); VF_GET(has_include); VF_GET(has_gen); VF_GET(excluded); VF_GET(included);
  VF_ASSUME(!(in_has_include && in_has_gen)); /* refused at startup */
  dd_must_instrument = &the_must;
  dd_mustnot_instrument = &the_mustnot;
  dd_exclude_path = in_has_exclude ? "e" : NULL;
  dd_include_path = in_has_include ? "i" : NULL;
  dd_generate_path = in_has_gen ? "g" : NULL;
  inserted = odd = 0;
  VF_ASSUME(DD_NATIVE == VF_DD); /* two cases, one obligation set each */
}
#define DD_SETUP() dd_setup()
#define DD_POST()                                                                                   \
  POST(odd == 0 && (!(in_has_gen && !DD_NATIVE) || inserted != 0), "an instrumented address is recorded when asked"); \
  POST(inserted == 0 || (in_has_gen && !DD_NATIVE), "and only those");
#else
#define DD_SETUP()
#define DD_NATIVE false
#define DD_POST()
#endif
