From 2bf627c8debe1ce3c432ee87355c4e3544d18c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:05 +0000
Subject: [PATCH 01/19] fix: keep the terminating NUL of Base64_encode within
 max_result_length

---
 Src/base64.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Src/base64.c b/Src/base64.c
index 53ef892..9c25b20 100644
--- a/Src/base64.c
+++ b/Src/base64.c
@@ -56,7 +56,7 @@ Base64_encode(const char* data, size_t data_length, char* result, size_t max_res
         uint8_t* pos = out;
         while ((data_length - in_position) >= 3U) {
             current_length += 4U;
-            if (current_length > max_result_length) {
+            if (current_length >= max_result_length) {
                 success = 1;
                 break;
             }
@@ -76,7 +76,7 @@ Base64_encode(const char* data, size_t data_length, char* result, size_t max_res
 
         if ((success == 0) && ((data_length - in_position) != 0U)) {
             current_length += 4U;
-            if (current_length > max_result_length) {
+            if (current_length >= max_result_length) {
                 success = 1;
             }
 
@@ -99,7 +99,12 @@ Base64_encode(const char* data, size_t data_length, char* result, size_t max_res
             }
         }
 
-        *pos = (uint8_t)'\0';
+        /* A result without any capacity can not even hold the terminating NUL. */
+        if (max_result_length == 0U) {
+            success = 1;
+        } else {
+            *pos = (uint8_t)'\0';
+        }
     }
 
     return success;
-- 
2.43.0


From 2204c8db62973ca3a20765bcdd5a1c4a8d165986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:23 +0000
Subject: [PATCH 02/19] fix: let Base64_decode accept a text of a single
 quantum

---
 Src/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/base64.c b/Src/base64.c
index 9c25b20..2832151 100644
--- a/Src/base64.c
+++ b/Src/base64.c
@@ -142,7 +142,7 @@ Base64_decode(const char* in, size_t in_len, uint8_t* out, size_t max_out_len) {
         success = 1;
     }
 
-    if (len == 0U) {
+    if (in_len == 0U) {
         success = 1;
     }
 
-- 
2.43.0


From 68b5e4e87c8f0744c0acac02654d3746bb098e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:29 +0000
Subject: [PATCH 03/19] fix: do not read past the end of the input in
 Base64_decode

---
 Src/base64.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Src/base64.c b/Src/base64.c
index 2832151..0aeae90 100644
--- a/Src/base64.c
+++ b/Src/base64.c
@@ -159,7 +159,10 @@ Base64_decode(const char* in, size_t in_len, uint8_t* out, size_t max_out_len) {
             ++j;
         }
         if (pad_bool) {
-            uint32_t n = (base64_index[in_data_uchar[len]] << 18U) | (base64_index[in_data_uchar[len + 1U]] << 12U);
+            uint32_t n = base64_index[in_data_uchar[len]] << 18U;
+            if (in_len > (len + 1U)) {
+                n |= base64_index[in_data_uchar[len + 1U]] << 12U;
+            }
             out[out_len - 1U] = (uint8_t)(n >> 16U);
 
             if ((in_len > (len + 2U)) && (in_data_uchar[len + 2U] != (uint8_t)'=')) {
-- 
2.43.0


From 929595157072b062a58d669f7eaf178a1df25faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:06 +0000
Subject: [PATCH 04/19] fix: define BitManipulation_rotl32 for rotations by 0
 and 32

---
 Src/bit_manipulation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/bit_manipulation.c b/Src/bit_manipulation.c
index 34e3ff1..d17af51 100644
--- a/Src/bit_manipulation.c
+++ b/Src/bit_manipulation.c
@@ -107,6 +107,6 @@ BitManipulation_toggleBit(uint32_t data, uint8_t n, uint32_t* out) {
 uint32_t
 BitManipulation_rotl32(uint32_t data, uint32_t n_bits) {
 
-    /* -E> hide MC3R1.R12.2 1 To optimize efficiency, we do not verify whether n_bits is between 0 and 31. */
-    return ((data << n_bits) ^ (data >> (32U - n_bits)));
+    /* -E> hide MC3R1.R12.2 1 The shift counts are granted to be between 0 and 31 due to bit masking. */
+    return ((data << (n_bits & MAX_BIT_SHIFT)) | (data >> ((32U - n_bits) & MAX_BIT_SHIFT)));
 }
-- 
2.43.0


From 7bd1a84ed7ef28f78b6f690fc9e37ab5392fc249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:06 +0000
Subject: [PATCH 05/19] fix: wrap around correctly in CaesarCipher_decrypt

---
 Src/crypto/caesar_cipher.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/crypto/caesar_cipher.c b/Src/crypto/caesar_cipher.c
index baff723..f25e79f 100644
--- a/Src/crypto/caesar_cipher.c
+++ b/Src/crypto/caesar_cipher.c
@@ -66,7 +66,7 @@ CaesarCipher_decrypt(char* msg, uint8_t shift) {
             if (Utils_isUpperChar(msg[i])) {
                 ascii_val = UPPER_A_ASCII;
             }
-            uint8_t decrypted_char = (((uint8_t)msg[i] - shift - ascii_val) % MAX_SHIFT) + ascii_val;
+            uint8_t decrypted_char = ((((uint8_t)msg[i] - ascii_val) + (MAX_SHIFT - (shift % MAX_SHIFT))) % MAX_SHIFT) + ascii_val;
             msg[i] = (char)decrypted_char;
         }
     }
-- 
2.43.0


From 6f32d934a106ddc7fcbe8fae37793dd481f40e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:06 +0000
Subject: [PATCH 06/19] fix: keep VernamCipher results within the alphabet for
 every key character

---
 Src/crypto/vernam_cipher.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/Src/crypto/vernam_cipher.c b/Src/crypto/vernam_cipher.c
index 71edb76..837833c 100644
--- a/Src/crypto/vernam_cipher.c
+++ b/Src/crypto/vernam_cipher.c
@@ -42,6 +42,18 @@
 #define LOWER_A_ASCII   (97)
 #define NUM_OF_ALPHA    (26)
 
+/* Distance of the key character from 'a' (lower case letters) or 'A' (all other characters), brought into 0..25. */
+static int32_t
+KeyShift(char key) {
+    int32_t c = UPPER_A_ASCII;
+    if (Utils_isLowerChar(key)) {
+        c = LOWER_A_ASCII;
+    }
+
+    int32_t shift = ((uint8_t)key - c) % NUM_OF_ALPHA;
+    return (shift < 0) ? (shift + NUM_OF_ALPHA) : shift;
+}
+
 bool
 VernamCipher_encrypt(char* msg, const char* key, int32_t key_length) {
     bool status = false;
@@ -49,17 +61,12 @@ VernamCipher_encrypt(char* msg, const char* key, int32_t key_length) {
     if ((int32_t)msg_length == key_length) {
         for (int32_t i = 0; i < key_length; ++i) {
             if (Utils_isAlpha(msg[i])) {
-                int8_t c = UPPER_A_ASCII;
-                if (Utils_isLowerChar(key[i])) {
-                    c = LOWER_A_ASCII;
-                }
-
                 int32_t ascii_val = LOWER_A_ASCII;
                 if (Utils_isUpperChar(msg[i])) {
                     ascii_val = UPPER_A_ASCII;
                 }
 
-                int32_t temp = (((int8_t)msg[i] - ascii_val + (int8_t)key[i] - c) % NUM_OF_ALPHA);
+                int32_t temp = (((uint8_t)msg[i] - ascii_val + KeyShift(key[i])) % NUM_OF_ALPHA);
                 int32_t cipher = temp + ascii_val;
                 msg[i] = (char)cipher;
             }
@@ -76,17 +83,12 @@ VernamCipher_decrypt(char* msg, const char* key, int32_t key_length) {
     if ((int32_t)msg_length == key_length) {
         for (int32_t i = 0; i < key_length; ++i) {
             if (Utils_isAlpha(msg[i])) {
-                int8_t c = UPPER_A_ASCII;
-                if (Utils_isLowerChar(key[i])) {
-                    c = LOWER_A_ASCII;
-                }
-
                 int32_t ascii_val = LOWER_A_ASCII;
                 if (Utils_isUpperChar(msg[i])) {
                     ascii_val = UPPER_A_ASCII;
                 }
 
-                int32_t cipher = ((msg[i] - ascii_val) - (key[i] - c));
+                int32_t cipher = (((uint8_t)msg[i] - ascii_val) - KeyShift(key[i]));
                 cipher = (cipher < 0) ? (cipher + NUM_OF_ALPHA + ascii_val) : (cipher + ascii_val);
                 msg[i] = (char)cipher;
             }
-- 
2.43.0


From a96060474d518091589f9dd307271a6b796917ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 07/19] fix: compare the full message length in VernamCipher

---
 Src/crypto/vernam_cipher.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/crypto/vernam_cipher.c b/Src/crypto/vernam_cipher.c
index 837833c..c114847 100644
--- a/Src/crypto/vernam_cipher.c
+++ b/Src/crypto/vernam_cipher.c
@@ -58,7 +58,7 @@ bool
 VernamCipher_encrypt(char* msg, const char* key, int32_t key_length) {
     bool status = false;
     const size_t msg_length = strlen(msg);
-    if ((int32_t)msg_length == key_length) {
+    if ((key_length >= 0) && (msg_length == (size_t)key_length)) {
         for (int32_t i = 0; i < key_length; ++i) {
             if (Utils_isAlpha(msg[i])) {
                 int32_t ascii_val = LOWER_A_ASCII;
@@ -80,7 +80,7 @@ bool
 VernamCipher_decrypt(char* msg, const char* key, int32_t key_length) {
     bool status = false;
     const size_t msg_length = strlen(msg);
-    if ((int32_t)msg_length == key_length) {
+    if ((key_length >= 0) && (msg_length == (size_t)key_length)) {
         for (int32_t i = 0; i < key_length; ++i) {
             if (Utils_isAlpha(msg[i])) {
                 int32_t ascii_val = LOWER_A_ASCII;
-- 
2.43.0


From f3bac6b23ec6ef45d2e368315ea5fa176c64a04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 08/19] fix: compare only elements of the array in
 HeapSort_sort

---
 Src/sort/heap_sort.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/Src/sort/heap_sort.c b/Src/sort/heap_sort.c
index cf99e9a..cd3aa7e 100644
--- a/Src/sort/heap_sort.c
+++ b/Src/sort/heap_sort.c
@@ -48,17 +48,16 @@ Heapify(byte_t* buffer, int32_t n, int32_t i, int32_t element_size,
         int32_t left = (2 * index) + 1;
         int32_t right = (2 * index) + 2;
 
-        bool compare_ret_value = compareFun(&elements[left * element_size],
-                                            &elements[largest * element_size]);
-
-        if ((left < n) && (compare_ret_value)) {
-            largest = left;
+        if (left < n) {
+            if (compareFun(&elements[left * element_size], &elements[largest * element_size])) {
+                largest = left;
+            }
         }
 
-        compare_ret_value = compareFun(&elements[right * element_size], &elements[largest * element_size]);
-
-        if ((right < n) && (compare_ret_value)) {
-            largest = right;
+        if (right < n) {
+            if (compareFun(&elements[right * element_size], &elements[largest * element_size])) {
+                largest = right;
+            }
         }
 
         if (largest != index) {
-- 
2.43.0


From bc3617faf723e149fd29584ba4196bb35ef019d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 09/19] fix: do not compare the element before the array in
 InsertionSort_sort

---
 Src/sort/insertion_sort.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Src/sort/insertion_sort.c b/Src/sort/insertion_sort.c
index 8bd4dcc..10594c6 100644
--- a/Src/sort/insertion_sort.c
+++ b/Src/sort/insertion_sort.c
@@ -59,7 +59,9 @@ InsertionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_s
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
             memcpy(&elements[(j + 1) * element_size], &elements[j * element_size], (size_t)element_size);
             --j;
-            compare = compareFun(&elements[j * element_size], element);
+            if (j >= 0) {
+                compare = compareFun(&elements[j * element_size], element);
+            }
         }
         /* -E> compliant MC3R1.R21.18 4 Buffer overflow will not happen, all elements in buffer
          * have same size, and their size is stored in element_size variable. Precondition is that
-- 
2.43.0


From 26e01096781f847e526bca07d004027eee319ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 10/19] fix: keep the element buffer of InsertionSort_sort on
 the stack

---
 Src/sort/insertion_sort.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/sort/insertion_sort.c b/Src/sort/insertion_sort.c
index 10594c6..783e178 100644
--- a/Src/sort/insertion_sort.c
+++ b/Src/sort/insertion_sort.c
@@ -40,7 +40,7 @@ void
 InsertionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
                    bool (*compareFun)(void* first, void* second)) {
     byte_t* elements = buffer;
-    static byte_t max_element[MAX_ELEMENT_SIZE];
+    byte_t max_element[MAX_ELEMENT_SIZE];
     byte_t* element = &max_element[0];
 
     for (int32_t i = 1; i < number_of_elements; ++i) {
-- 
2.43.0


From 6135b2e9e389cc79f3646693c429af403ced10e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:08 +0000
Subject: [PATCH 11/19] fix: refuse negative sizes in Map_init

---
 Src/map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/map.c b/Src/map.c
index ce59322..5f153e9 100644
--- a/Src/map.c
+++ b/Src/map.c
@@ -55,7 +55,7 @@ bool
 Map_init(Map_t* map, byte_t* keys, byte_t* values, int32_t key_size, int32_t value_size,
          int32_t max_map_size) {
     bool status = false;
-    if ((key_size != 0) && (value_size != 0) && (max_map_size != 0) && (keys != NULL_PTR) && (values != NULL_PTR)) {
+    if ((key_size > 0) && (value_size > 0) && (max_map_size > 0) && (keys != NULL_PTR) && (values != NULL_PTR)) {
         map->keys = keys;
         map->values = values;
         map->key_size = key_size;
-- 
2.43.0


From 878d9adeed24cd2c061b7a588b6352ad74f23eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 12/19] fix: keep Json_addData within the buffer and leave the
 text alone when refusing

---
 Src/json.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Src/json.c b/Src/json.c
index 24c84b2..50350c2 100644
--- a/Src/json.c
+++ b/Src/json.c
@@ -58,13 +58,19 @@ Json_addData(char* buffer, size_t buffer_size, const char* key, const char* valu
     size_t index = strlen(buffer);
     size_t total_size = strlen("\"\":\"\"") + strlen(key) + strlen(value) + 1U;
 
-    if (0 == strcmp(&buffer[index - 1U], "\"")) {
-        // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case, therefore it is not used
-        strcpy(&buffer[index], ",");
-        ++index;
+    bool separator_needed = (index > 0U) && (buffer[index - 1U] == '"');
+
+    if (separator_needed) {
+        total_size += strlen(",");
     }
 
     if ((total_size + index) <= buffer_size) {
+        if (separator_needed) {
+            // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case, therefore it is not used
+            strcpy(&buffer[index], ",");
+            index += strlen(",");
+        }
+
         // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case, therefore it is not used
         strcpy(&buffer[index], "\"");
         index += strlen("\"");
-- 
2.43.0


From b4c0b321a2da0ce12ef2bb4bd2578c03940e3024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:25 +0000
Subject: [PATCH 13/19] fix: match only whole keys and string values in
 Json_findByKey

---
 Src/json.c | 78 +++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 54 insertions(+), 24 deletions(-)

diff --git a/Src/json.c b/Src/json.c
index 50350c2..c81a98d 100644
--- a/Src/json.c
+++ b/Src/json.c
@@ -108,46 +108,76 @@ Json_endString(char* buffer, size_t buffer_size) {
     return success;
 }
 
-bool
-Json_findByKey(const char* buffer, size_t buffer_size, const char* key, char* value, size_t max_value_size) {
-    bool success = false;
+/* Size of the text, which ends with the buffer or with '\0', whichever comes first. */
+static size_t
+TextSize(const char* buffer, size_t buffer_size) {
+    size_t size = 0U;
 
-    size_t key_size = strlen(key);
-    uint32_t max_search_size = 0U;
-    uint32_t index;
-
-    if (buffer_size > key_size) {
-        max_search_size = (uint32_t)(buffer_size - key_size);
+    while ((size < buffer_size) && (buffer[size] != '\0')) {
+        ++size;
     }
 
-    for (index = 0U; index < max_search_size; ++index) {
+    return size;
+}
 
-        /* -E> compliant MC3R1.R21.18 2 strncmp is guarded in for loop condition to not go out of buffer boundaries
-        by calculating max_search_size from buffer size and key size */
-        if (0 == strncmp(&buffer[index], key, key_size)) {
+/* Index of the first quote at or after the given index, or text_size if there is none. */
+static size_t
+FindQuote(const char* buffer, size_t text_size, size_t start) {
+    size_t index = start;
 
-            if (buffer[index + key_size] == '"') {
-                success = true;
-            }
+    while ((index < text_size) && (buffer[index] != '"')) {
+        ++index;
+    }
 
-            break;
-        }
+    return index;
+}
+
+/* Index of the first character at or after the given index that is not JSON whitespace. */
+static size_t
+SkipWhitespace(const char* buffer, size_t text_size, size_t start) {
+    size_t index = start;
+
+    while ((index < text_size) &&
+            ((buffer[index] == ' ') || (buffer[index] == '\t') || (buffer[index] == '\n') || (buffer[index] == '\r'))) {
+        ++index;
     }
 
-    if (success) {
+    return index;
+}
 
-        success = false;
-        for (index += (uint32_t)(key_size + 1U); index < buffer_size; ++index) {
+bool
+Json_findByKey(const char* buffer, size_t buffer_size, const char* key, char* value, size_t max_value_size) {
+    bool success = false;
 
-            if (buffer[index] == '"') {
-                break;
+    const size_t key_size = strlen(key);
+    const size_t text_size = TextSize(buffer, buffer_size);
+    bool key_found = false;
+    size_t index = 0U;
+
+    /* Walk through the strings of the text. Only a string that is followed by a colon is a key. */
+    while ((!key_found) && (index < text_size)) {
+        if (buffer[index] == '"') {
+            const size_t begin = index + 1U;
+            const size_t end = FindQuote(buffer, text_size, begin);
+            const size_t colon = SkipWhitespace(buffer, text_size, end + 1U);
+
+            index = colon;
+            if ((colon < text_size) && (buffer[colon] == ':')) {
+                key_found = ((end - begin) == key_size) && (0 == strncmp(&buffer[begin], key, key_size));
+                ++index;
             }
+        } else {
+            ++index;
         }
+    }
+
+    index = SkipWhitespace(buffer, text_size, index);
 
+    if (key_found && (index < text_size) && (buffer[index] == '"')) {
         size_t value_size = 0;
         ++index;
 
-        while ((index < buffer_size) && (value_size < max_value_size)) {
+        while ((index < text_size) && (value_size < max_value_size)) {
             value[value_size] = buffer[index];
 
             if (buffer[index] == '"') {
-- 
2.43.0


From d25283e683f9680feb5b1f6f4cce15aeb5ef5dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:16 +0000
Subject: [PATCH 14/19] fix: address queue storage beyond 4 GiB

---
 Src/queue.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Src/queue.c b/Src/queue.c
index 8f4d7f5..191db5e 100644
--- a/Src/queue.c
+++ b/Src/queue.c
@@ -71,7 +71,7 @@ Queue_enqueue(Queue_t* queue, const uint8_t* element) {
              * in buffer, and their size is stored in element_size member. Also, there is a guard that checks that
              * queue is not full. */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(&buffer[((queue->rear + 1U) % queue->capacity) * queue->element_size], element, queue->element_size);
+            memcpy(&buffer[(size_t)((queue->rear + 1U) % queue->capacity) * queue->element_size], element, queue->element_size);
             queue->rear = (queue->rear + 1U) % queue->capacity;
             queue->size = queue->size + 1U;
             status = true;
@@ -89,7 +89,7 @@ Queue_dequeue(Queue_t* queue, uint8_t* element) {
             /* -E> compliant MC3R1.R21.18 3 Buffer overflow will not happen, element has same size as one element
              * in buffer, and their size is stored in element_size member. */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(element, &buffer[queue->front * queue->element_size], queue->element_size);
+            memcpy(element, &buffer[(size_t)queue->front * queue->element_size], queue->element_size);
             queue->front = (queue->front + 1U) % queue->capacity;
             queue->size = queue->size - 1U;
             status = true;
@@ -107,7 +107,7 @@ Queue_front(const Queue_t* queue, uint8_t* element) {
             /* -E> compliant MC3R1.R21.18 3 Buffer overflow will not happen, element has same size as one element
              * in buffer, and their size is stored in element_size member. */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(element, &buffer[queue->front * queue->element_size], queue->element_size);
+            memcpy(element, &buffer[(size_t)queue->front * queue->element_size], queue->element_size);
             status = true;
         }
     }
@@ -123,7 +123,7 @@ Queue_rear(const Queue_t* queue, uint8_t* element) {
             /* -E> compliant MC3R1.R21.18 3 Buffer overflow will not happen, element has same size as one element
              * in buffer, and their size is stored in element_size member. */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(element, &buffer[queue->rear * queue->element_size], queue->element_size);
+            memcpy(element, &buffer[(size_t)queue->rear * queue->element_size], queue->element_size);
             status = true;
         }
     }
-- 
2.43.0


From d9f621a0fdc2a4172979de474c28ccdc1ed524aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:16 +0000
Subject: [PATCH 15/19] fix: address priority queue storage beyond 4 GiB

---
 Src/priority_queue.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Src/priority_queue.c b/Src/priority_queue.c
index 0b5ddd5..3ebba87 100644
--- a/Src/priority_queue.c
+++ b/Src/priority_queue.c
@@ -99,7 +99,7 @@ PriorityQueue_enqueue(PriorityQueue_t* queue, const PriorityQueueItem_t* item) {
         /* -E> compliant MC3R1.R21.18 3 Buffer overflow will not happen, there is a guard that checks that priority
          * queue is not full. */
         // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-        memcpy(&buffer[queue->size * queue->element_size], item->element, queue->element_size);
+        memcpy(&buffer[(size_t)queue->size * queue->element_size], item->element, queue->element_size);
         queue->priority_array[queue->size] = *(item->priority);
         queue->size = queue->size + 1U;
         status = true;
@@ -115,7 +115,7 @@ PriorityQueue_enqueue(PriorityQueue_t* queue, const PriorityQueueItem_t* item) {
                  * queue size is reached which is previous size - 1. Therefore, last valid element that will be used in
                  * memcpy function is placed in current size + 1. */
                 // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-                memcpy(&buffer[i * queue->element_size], &buffer[(i * queue->element_size) + queue->element_size],
+                memcpy(&buffer[(size_t)i * queue->element_size], &buffer[((size_t)i * queue->element_size) + queue->element_size],
                        queue->element_size);
                 queue->priority_array[i] = queue->priority_array[i + 1U];
             }
@@ -123,7 +123,7 @@ PriorityQueue_enqueue(PriorityQueue_t* queue, const PriorityQueueItem_t* item) {
              * insert a new element because of removing element with the lowest priority (performed in the above code,
              * in the same function). */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(&buffer[queue->size * queue->element_size], item->element, queue->element_size);
+            memcpy(&buffer[(size_t)queue->size * queue->element_size], item->element, queue->element_size);
             queue->priority_array[queue->size] = *(item->priority);
             queue->size = queue->size + 1U;
         }
@@ -141,7 +141,7 @@ PriorityQueue_dequeue(PriorityQueue_t* queue, uint8_t* element) {
         /* -E> compliant MC3R1.R21.18 3 Buffer overflow will not happen, element has same size as one element
          * in buffer, and their size is stored in element_size member. */
         // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-        memcpy(element, &buffer[highest_priority_index * queue->element_size], queue->element_size);
+        memcpy(element, &buffer[(size_t)highest_priority_index * queue->element_size], queue->element_size);
         queue->size = queue->size - 1U;
         const uint32_t current_size = queue->size;
         for (uint32_t i = highest_priority_index; i < current_size; ++i) {
@@ -149,7 +149,7 @@ PriorityQueue_dequeue(PriorityQueue_t* queue, uint8_t* element) {
              * queue size is reached which is previous size - 1. Therefore, last valid element that will be used in
              * memcpy function is placed in current size + 1. */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(&buffer[i * queue->element_size], &buffer[(i * queue->element_size) + queue->element_size],
+            memcpy(&buffer[(size_t)i * queue->element_size], &buffer[((size_t)i * queue->element_size) + queue->element_size],
                    queue->element_size);
             queue->priority_array[i] = queue->priority_array[i + 1U];
         }
-- 
2.43.0


From 6166cc98cc3835abfc825980eacf7dbab6199d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:16 +0000
Subject: [PATCH 16/19] fix: address map storage beyond 2 GiB

---
 Src/map.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Src/map.c b/Src/map.c
index 5f153e9..830fd6b 100644
--- a/Src/map.c
+++ b/Src/map.c
@@ -43,7 +43,7 @@ GetIndex(const Map_t* map, const byte_t* key, int32_t size) {
     int32_t index = INDEX_NOT_FOUND;
     for (int32_t i = 0; i < size; ++i) {
         /* -E> compliant MC3R1.R21.18 1 map->key_size is a size of the key in the map and it has appropriate value. */
-        if (memcmp(&map->keys[i * map->key_size], key, (size_t)map->key_size) == 0) {
+        if (memcmp(&map->keys[(size_t)i * (size_t)map->key_size], key, (size_t)map->key_size) == 0) {
             index = i;
             break;
         }
@@ -78,12 +78,12 @@ Map_insert(Map_t* map, const byte_t* key, const byte_t* value) {
                 /* -E> compliant MC3R1.R19.1 3 Overlap will not happen because there is a check if current map size reached
                  * max map size. */
                 // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-                memcpy(&map->keys[map->current_size * map->key_size], key, (size_t)map->key_size);
+                memcpy(&map->keys[(size_t)map->current_size * (size_t)map->key_size], key, (size_t)map->key_size);
                 /* -E> compliant MC3R1.R21.18 4 map->value_size is a size of the value in the map and it has appropriate value. */
                 /* -E> compliant MC3R1.R19.1 3 Overlap will not happen because there is a check if current map size reached
                  * max map size. */
                 // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-                memcpy(&map->values[map->current_size * map->value_size], value, (size_t)map->value_size);
+                memcpy(&map->values[(size_t)map->current_size * (size_t)map->value_size], value, (size_t)map->value_size);
                 ++map->current_size;
                 status = true;
             }
@@ -92,7 +92,7 @@ Map_insert(Map_t* map, const byte_t* key, const byte_t* value) {
             /* -E> compliant MC3R1.R19.1 3 Overlap will not happen since the current key is the same as the key that is
              * previously inserted in the map. Therefore, new value will be mapped to that key. */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(&map->values[index * map->value_size], value, (size_t)map->value_size);
+            memcpy(&map->values[(size_t)index * (size_t)map->value_size], value, (size_t)map->value_size);
             status = true;
         }
     }
@@ -109,7 +109,7 @@ Map_getValue(const Map_t* map, const byte_t* key, byte_t* value) {
             /* -E> compliant MC3R1.R19.1 3 Overlap will not happen because the map->value_size is the size of the value
              * and every element in map->values has that size */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(value, &map->values[index * map->value_size], (size_t)map->value_size);
+            memcpy(value, &map->values[(size_t)index * (size_t)map->value_size], (size_t)map->value_size);
             status = true;
         }
     }
-- 
2.43.0


From ea379da4f09dd7acb7624e31f029697c17783395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:38 +0000
Subject: [PATCH 17/19] fix: address arrays beyond 2 GiB in the sorts

---
 Src/sort/bubble_sort.c    |  6 ++++--
 Src/sort/heap_sort.c      | 10 ++++++----
 Src/sort/insertion_sort.c | 10 +++++-----
 Src/sort/selection_sort.c |  6 ++++--
 4 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/Src/sort/bubble_sort.c b/Src/sort/bubble_sort.c
index 0012402..4fa23ee 100644
--- a/Src/sort/bubble_sort.c
+++ b/Src/sort/bubble_sort.c
@@ -34,6 +34,8 @@
 
 #include "bubble_sort.h"
 
+#include <stddef.h>
+
 #include "utils.h"
 
 void
@@ -45,8 +47,8 @@ BubbleSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size
     while (swapped) {
         swapped = false;
         for (int32_t j = 0; j < (number_of_elements - i - 1); ++j) {
-            if (compareFun(&elements[j * element_size], &elements[(j + 1) * element_size])) {
-                Utils_swapElements(&elements[j * element_size], &elements[(j + 1) * element_size], (uint32_t)element_size);
+            if (compareFun(&elements[(size_t)j * (size_t)element_size], &elements[(size_t)(j + 1) * (size_t)element_size])) {
+                Utils_swapElements(&elements[(size_t)j * (size_t)element_size], &elements[(size_t)(j + 1) * (size_t)element_size], (uint32_t)element_size);
                 swapped = true;
             }
         }
diff --git a/Src/sort/heap_sort.c b/Src/sort/heap_sort.c
index cd3aa7e..f7a0bee 100644
--- a/Src/sort/heap_sort.c
+++ b/Src/sort/heap_sort.c
@@ -34,6 +34,8 @@
 
 #include "heap_sort.h"
 
+#include <stddef.h>
+
 #include "utils.h"
 
 static void
@@ -49,19 +51,19 @@ Heapify(byte_t* buffer, int32_t n, int32_t i, int32_t element_size,
         int32_t right = (2 * index) + 2;
 
         if (left < n) {
-            if (compareFun(&elements[left * element_size], &elements[largest * element_size])) {
+            if (compareFun(&elements[(size_t)left * (size_t)element_size], &elements[(size_t)largest * (size_t)element_size])) {
                 largest = left;
             }
         }
 
         if (right < n) {
-            if (compareFun(&elements[right * element_size], &elements[largest * element_size])) {
+            if (compareFun(&elements[(size_t)right * (size_t)element_size], &elements[(size_t)largest * (size_t)element_size])) {
                 largest = right;
             }
         }
 
         if (largest != index) {
-            Utils_swapElements(&elements[index * element_size], &elements[largest * element_size], (uint32_t)element_size);
+            Utils_swapElements(&elements[(size_t)index * (size_t)element_size], &elements[(size_t)largest * (size_t)element_size], (uint32_t)element_size);
             index = largest;
         } else {
             continue_iterating = false;
@@ -79,7 +81,7 @@ HeapSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
     }
 
     for (i = number_of_elements - 1; i >= 0; --i) {
-        Utils_swapElements(&elements[0], &elements[i * element_size], (uint32_t)element_size);
+        Utils_swapElements(&elements[0], &elements[(size_t)i * (size_t)element_size], (uint32_t)element_size);
         Heapify(elements, i, 0, element_size, compareFun);
     }
 }
diff --git a/Src/sort/insertion_sort.c b/Src/sort/insertion_sort.c
index 783e178..a06bbd2 100644
--- a/Src/sort/insertion_sort.c
+++ b/Src/sort/insertion_sort.c
@@ -48,25 +48,25 @@ InsertionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_s
          * have same size, and their size is stored in element_size variable. Precondition is that
          * element_size must be less than or equal to MAX_ELEMENT_SIZE. */
         // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-        memcpy(element, &elements[i * element_size], (size_t)element_size);
+        memcpy(element, &elements[(size_t)i * (size_t)element_size], (size_t)element_size);
 
         int32_t j = i - 1;
-        bool compare = compareFun(&elements[j * element_size], element);
+        bool compare = compareFun(&elements[(size_t)j * (size_t)element_size], element);
 
         while ((j >= 0) && compare) {
             /* -E> compliant MC3R1.R19.1 3 Overlap will not happen, all elements in buffer
              * have same size, and their size is stored in element_size variable. */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(&elements[(j + 1) * element_size], &elements[j * element_size], (size_t)element_size);
+            memcpy(&elements[(size_t)(j + 1) * (size_t)element_size], &elements[(size_t)j * (size_t)element_size], (size_t)element_size);
             --j;
             if (j >= 0) {
-                compare = compareFun(&elements[j * element_size], element);
+                compare = compareFun(&elements[(size_t)j * (size_t)element_size], element);
             }
         }
         /* -E> compliant MC3R1.R21.18 4 Buffer overflow will not happen, all elements in buffer
          * have same size, and their size is stored in element_size variable. Precondition is that
          * element_size must be less than or equal to MAX_ELEMENT_SIZE. */
         // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-        memcpy(&elements[(j + 1) * element_size], element, (size_t)element_size);
+        memcpy(&elements[(size_t)(j + 1) * (size_t)element_size], element, (size_t)element_size);
     }
 }
diff --git a/Src/sort/selection_sort.c b/Src/sort/selection_sort.c
index 21cd5d9..8947ec1 100644
--- a/Src/sort/selection_sort.c
+++ b/Src/sort/selection_sort.c
@@ -34,6 +34,8 @@
 
 #include "selection_sort.h"
 
+#include <stddef.h>
+
 #include "utils.h"
 
 void
@@ -45,13 +47,13 @@ SelectionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_s
     for (int32_t i = 0; i < (number_of_elements - 1); ++i) {
         int32_t min_index = i;
         for (j = i + 1; j < number_of_elements; ++j) {
-            if (compareFun(&elements[min_index * element_size], &elements[j * element_size])) {
+            if (compareFun(&elements[(size_t)min_index * (size_t)element_size], &elements[(size_t)j * (size_t)element_size])) {
                 min_index = j;
             }
         }
 
         if (min_index != i) {
-            Utils_swapElements(&elements[min_index * element_size], &elements[i * element_size], (uint32_t)element_size);
+            Utils_swapElements(&elements[(size_t)min_index * (size_t)element_size], &elements[(size_t)i * (size_t)element_size], (uint32_t)element_size);
         }
     }
 }
-- 
2.43.0


From 95b99aa3d987a9474dbdc9799c342aaebf216f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:38 +0000
Subject: [PATCH 18/19] fix: compute child indices of large heaps without
 overflow

---
 Src/sort/heap_sort.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Src/sort/heap_sort.c b/Src/sort/heap_sort.c
index f7a0bee..c684961 100644
--- a/Src/sort/heap_sort.c
+++ b/Src/sort/heap_sort.c
@@ -47,18 +47,18 @@ Heapify(byte_t* buffer, int32_t n, int32_t i, int32_t element_size,
 
     while (continue_iterating) {
         int32_t largest = index;
-        int32_t left = (2 * index) + 1;
-        int32_t right = (2 * index) + 2;
+        int64_t left = (2 * (int64_t)index) + 1;
+        int64_t right = (2 * (int64_t)index) + 2;
 
         if (left < n) {
             if (compareFun(&elements[(size_t)left * (size_t)element_size], &elements[(size_t)largest * (size_t)element_size])) {
-                largest = left;
+                largest = (int32_t)left;
             }
         }
 
         if (right < n) {
             if (compareFun(&elements[(size_t)right * (size_t)element_size], &elements[(size_t)largest * (size_t)element_size])) {
-                largest = right;
+                largest = (int32_t)right;
             }
         }
 
-- 
2.43.0


From e0c4a788f113e50721fce616d60082865fdfdb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:39 +0000
Subject: [PATCH 19/19] fix: copy little-endian blobs larger than 2 GiB

---
 Src/utils.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/Src/utils.c b/Src/utils.c
index 6f32933..c5a0891 100644
--- a/Src/utils.c
+++ b/Src/utils.c
@@ -217,10 +217,8 @@ Utils_serialize32LE(byte_t* buf, uint32_t value) {
 
 void
 Utils_serializeBlobLE(byte_t* buf, const byte_t* src, uint32_t size) {
-    int32_t j = 0;
-    for (int32_t i = ((int32_t)size - 1); i >= 0; --i) {
-        buf[j] = src[i];
-        ++j;
+    for (uint32_t i = 0; i < size; i++) {
+        buf[i] = src[(size - 1U) - i];
     }
 }
 
@@ -253,10 +251,8 @@ Utils_deserialize32LE(const byte_t* buf) {
 
 void
 Utils_deserializeBlobLE(const byte_t* buf, byte_t* dst, uint32_t size) {
-    int32_t  j = 0;
-    for (int32_t i = ((int32_t)size - 1); i >= 0; --i) {
-        dst[j] = buf[i];
-        ++j;
+    for (uint32_t i = 0; i < size; i++) {
+        dst[i] = buf[(size - 1U) - i];
     }
 }
 
-- 
2.43.0

