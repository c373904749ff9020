#ifndef GUEST_CTYPE_H_
#define GUEST_CTYPE_H_
int isdigit(int c);
int isupper(int c);
int islower(int c);
int isalpha(int c);
int isalnum(int c);
int isspace(int c);
int isxdigit(int c);
int isprint(int c);
int toupper(int c);
int tolower(int c);
#endif
