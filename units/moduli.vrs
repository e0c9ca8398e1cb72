//@include lib/head_fieldc.vrs
//@include lib/numtheory.vrs
//@include lib/pratt.vrs
//@moduli jester_maths/src/prime.rs
// certificates, written by tools/gen_moduli.py
proof fn pr_2() ensures is_prime(2int) { two_is_prime(); }
proof fn prime_Mersenne2() ensures is_prime(modulus_Mersenne2())
{
    assert(modulus_Mersenne2() == 3int) by(compute_only);
    good_one(3int);
    pr_2(); assert(step_ok(3int, 1int, 2int, 1, 2int, 1int, 2int)) by(compute_only); good_step(3int, 1int, 2int, 1, 2int, 1int, 2int);
    good_end(3int);
}
proof fn pr_3() ensures is_prime(3int)
{
    good_one(3int);
    pr_2(); assert(step_ok(3int, 1int, 2int, 1, 2int, 1int, 2int)) by(compute_only); good_step(3int, 1int, 2int, 1, 2int, 1int, 2int);
    good_end(3int);
}
proof fn prime_Mersenne3() ensures is_prime(modulus_Mersenne3())
{
    assert(modulus_Mersenne3() == 7int) by(compute_only);
    good_one(7int);
    pr_2(); assert(step_ok(7int, 1int, 2int, 1, 3int, 3int, 2int)) by(compute_only); good_step(7int, 1int, 2int, 1, 3int, 3int, 2int);
    pr_3(); assert(step_ok(7int, 2int, 3int, 1, 2int, 5int, 6int)) by(compute_only); good_step(7int, 2int, 3int, 1, 2int, 5int, 6int);
    good_end(7int);
}
proof fn pr_5() ensures is_prime(5int)
{
    good_one(5int);
    pr_2(); assert(step_ok(5int, 1int, 2int, 2, 2int, 2int, 4int)) by(compute_only); good_step(5int, 1int, 2int, 2, 2int, 2int, 4int);
    good_end(5int);
}
proof fn prime_Mersenne5() ensures is_prime(modulus_Mersenne5())
{
    assert(modulus_Mersenne5() == 31int) by(compute_only);
    good_one(31int);
    pr_2(); assert(step_ok(31int, 1int, 2int, 1, 3int, 15int, 2int)) by(compute_only); good_step(31int, 1int, 2int, 1, 3int, 15int, 2int);
    pr_3(); assert(step_ok(31int, 2int, 3int, 1, 3int, 22int, 6int)) by(compute_only); good_step(31int, 2int, 3int, 1, 3int, 22int, 6int);
    pr_5(); assert(step_ok(31int, 6int, 5int, 1, 2int, 1int, 30int)) by(compute_only); good_step(31int, 6int, 5int, 1, 2int, 1int, 30int);
    good_end(31int);
}
proof fn pr_7() ensures is_prime(7int)
{
    good_one(7int);
    pr_2(); assert(step_ok(7int, 1int, 2int, 1, 3int, 3int, 2int)) by(compute_only); good_step(7int, 1int, 2int, 1, 3int, 3int, 2int);
    pr_3(); assert(step_ok(7int, 2int, 3int, 1, 2int, 5int, 6int)) by(compute_only); good_step(7int, 2int, 3int, 1, 2int, 5int, 6int);
    good_end(7int);
}
proof fn pr_13() ensures is_prime(13int)
{
    good_one(13int);
    pr_2(); assert(step_ok(13int, 1int, 2int, 2, 2int, 6int, 4int)) by(compute_only); good_step(13int, 1int, 2int, 2, 2int, 6int, 4int);
    pr_3(); assert(step_ok(13int, 4int, 3int, 1, 2int, 7int, 12int)) by(compute_only); good_step(13int, 4int, 3int, 1, 2int, 7int, 12int);
    good_end(13int);
}
proof fn prime_Mersenne13() ensures is_prime(modulus_Mersenne13())
{
    assert(modulus_Mersenne13() == 8191int) by(compute_only);
    good_one(8191int);
    pr_2(); assert(step_ok(8191int, 1int, 2int, 1, 3int, 4095int, 2int)) by(compute_only); good_step(8191int, 1int, 2int, 1, 3int, 4095int, 2int);
    pr_3(); assert(step_ok(8191int, 2int, 3int, 2, 7int, 5430int, 18int)) by(compute_only); good_step(8191int, 2int, 3int, 2, 7int, 5430int, 18int);
    pr_5(); assert(step_ok(8191int, 18int, 5int, 1, 3int, 5537int, 90int)) by(compute_only); good_step(8191int, 18int, 5int, 1, 3int, 5537int, 90int);
    pr_7(); assert(step_ok(8191int, 90int, 7int, 1, 3int, 5646int, 630int)) by(compute_only); good_step(8191int, 90int, 7int, 1, 3int, 5646int, 630int);
    pr_13(); assert(step_ok(8191int, 630int, 13int, 1, 2int, 8061int, 8190int)) by(compute_only); good_step(8191int, 630int, 13int, 1, 2int, 8061int, 8190int);
    good_end(8191int);
}
proof fn pr_17() ensures is_prime(17int)
{
    good_one(17int);
    pr_2(); assert(step_ok(17int, 1int, 2int, 4, 3int, 8int, 16int)) by(compute_only); good_step(17int, 1int, 2int, 4, 3int, 8int, 16int);
    good_end(17int);
}
proof fn pr_257() ensures is_prime(257int)
{
    good_one(257int);
    pr_2(); assert(step_ok(257int, 1int, 2int, 8, 3int, 128int, 256int)) by(compute_only); good_step(257int, 1int, 2int, 8, 3int, 128int, 256int);
    good_end(257int);
}
proof fn prime_Mersenne17() ensures is_prime(modulus_Mersenne17())
{
    assert(modulus_Mersenne17() == 131071int) by(compute_only);
    good_one(131071int);
    pr_2(); assert(step_ok(131071int, 1int, 2int, 1, 3int, 65535int, 2int)) by(compute_only); good_step(131071int, 1int, 2int, 1, 3int, 65535int, 2int);
    pr_3(); assert(step_ok(131071int, 2int, 3int, 1, 3int, 94682int, 6int)) by(compute_only); good_step(131071int, 2int, 3int, 1, 3int, 94682int, 6int);
    pr_5(); assert(step_ok(131071int, 6int, 5int, 1, 3int, 69088int, 30int)) by(compute_only); good_step(131071int, 6int, 5int, 1, 3int, 69088int, 30int);
    pr_17(); assert(step_ok(131071int, 30int, 17int, 1, 2int, 513int, 510int)) by(compute_only); good_step(131071int, 30int, 17int, 1, 2int, 513int, 510int);
    pr_257(); assert(step_ok(131071int, 510int, 257int, 1, 3int, 53581int, 131070int)) by(compute_only); good_step(131071int, 510int, 257int, 1, 3int, 53581int, 131070int);
    good_end(131071int);
}
proof fn pr_19() ensures is_prime(19int)
{
    good_one(19int);
    pr_2(); assert(step_ok(19int, 1int, 2int, 1, 2int, 9int, 2int)) by(compute_only); good_step(19int, 1int, 2int, 1, 2int, 9int, 2int);
    pr_3(); assert(step_ok(19int, 2int, 3int, 2, 2int, 16int, 18int)) by(compute_only); good_step(19int, 2int, 3int, 2, 2int, 16int, 18int);
    good_end(19int);
}
proof fn pr_73() ensures is_prime(73int)
{
    good_one(73int);
    pr_2(); assert(step_ok(73int, 1int, 2int, 3, 5int, 36int, 8int)) by(compute_only); good_step(73int, 1int, 2int, 3, 5int, 36int, 8int);
    pr_3(); assert(step_ok(73int, 8int, 3int, 2, 2int, 51int, 72int)) by(compute_only); good_step(73int, 8int, 3int, 2, 2int, 51int, 72int);
    good_end(73int);
}
proof fn prime_Mersenne19() ensures is_prime(modulus_Mersenne19())
{
    assert(modulus_Mersenne19() == 524287int) by(compute_only);
    good_one(524287int);
    pr_2(); assert(step_ok(524287int, 1int, 2int, 1, 3int, 262143int, 2int)) by(compute_only); good_step(524287int, 1int, 2int, 1, 3int, 262143int, 2int);
    pr_3(); assert(step_ok(524287int, 2int, 3int, 3, 3int, 326360int, 54int)) by(compute_only); good_step(524287int, 2int, 3int, 3, 3int, 326360int, 54int);
    pr_7(); assert(step_ok(524287int, 54int, 7int, 1, 3int, 439504int, 378int)) by(compute_only); good_step(524287int, 54int, 7int, 1, 3int, 439504int, 378int);
    pr_19(); assert(step_ok(524287int, 378int, 19int, 1, 2int, 515965int, 7182int)) by(compute_only); good_step(524287int, 378int, 19int, 1, 2int, 515965int, 7182int);
    pr_73(); assert(step_ok(524287int, 7182int, 73int, 1, 3int, 130543int, 524286int)) by(compute_only); good_step(524287int, 7182int, 73int, 1, 3int, 130543int, 524286int);
    good_end(524287int);
}
proof fn pr_11() ensures is_prime(11int)
{
    good_one(11int);
    pr_2(); assert(step_ok(11int, 1int, 2int, 1, 2int, 5int, 2int)) by(compute_only); good_step(11int, 1int, 2int, 1, 2int, 5int, 2int);
    pr_5(); assert(step_ok(11int, 2int, 5int, 1, 2int, 4int, 10int)) by(compute_only); good_step(11int, 2int, 5int, 1, 2int, 4int, 10int);
    good_end(11int);
}
proof fn pr_31() ensures is_prime(31int)
{
    good_one(31int);
    pr_2(); assert(step_ok(31int, 1int, 2int, 1, 3int, 15int, 2int)) by(compute_only); good_step(31int, 1int, 2int, 1, 3int, 15int, 2int);
    pr_3(); assert(step_ok(31int, 2int, 3int, 1, 3int, 22int, 6int)) by(compute_only); good_step(31int, 2int, 3int, 1, 3int, 22int, 6int);
    pr_5(); assert(step_ok(31int, 6int, 5int, 1, 2int, 1int, 30int)) by(compute_only); good_step(31int, 6int, 5int, 1, 2int, 1int, 30int);
    good_end(31int);
}
proof fn pr_151() ensures is_prime(151int)
{
    good_one(151int);
    pr_2(); assert(step_ok(151int, 1int, 2int, 1, 3int, 75int, 2int)) by(compute_only); good_step(151int, 1int, 2int, 1, 3int, 75int, 2int);
    pr_3(); assert(step_ok(151int, 2int, 3int, 1, 2int, 39int, 6int)) by(compute_only); good_step(151int, 2int, 3int, 1, 2int, 39int, 6int);
    pr_5(); assert(step_ok(151int, 6int, 5int, 2, 3int, 138int, 150int)) by(compute_only); good_step(151int, 6int, 5int, 2, 3int, 138int, 150int);
    good_end(151int);
}
proof fn pr_331() ensures is_prime(331int)
{
    good_one(331int);
    pr_2(); assert(step_ok(331int, 1int, 2int, 1, 2int, 165int, 2int)) by(compute_only); good_step(331int, 1int, 2int, 1, 2int, 165int, 2int);
    pr_3(); assert(step_ok(331int, 2int, 3int, 1, 2int, 10int, 6int)) by(compute_only); good_step(331int, 2int, 3int, 1, 2int, 10int, 6int);
    pr_5(); assert(step_ok(331int, 6int, 5int, 1, 2int, 310int, 30int)) by(compute_only); good_step(331int, 6int, 5int, 1, 2int, 310int, 30int);
    pr_11(); assert(step_ok(331int, 30int, 11int, 1, 3int, 16int, 330int)) by(compute_only); good_step(331int, 30int, 11int, 1, 3int, 16int, 330int);
    good_end(331int);
}
proof fn prime_Mersenne31() ensures is_prime(modulus_Mersenne31())
{
    assert(modulus_Mersenne31() == 2147483647int) by(compute_only);
    good_one(2147483647int);
    pr_2(); assert(step_ok(2147483647int, 1int, 2int, 1, 3int, 1073741823int, 2int)) by(compute_only); good_step(2147483647int, 1int, 2int, 1, 3int, 1073741823int, 2int);
    pr_3(); assert(step_ok(2147483647int, 2int, 3int, 2, 5int, 1642991068int, 18int)) by(compute_only); good_step(2147483647int, 2int, 3int, 2, 5int, 1642991068int, 18int);
    pr_7(); assert(step_ok(2147483647int, 18int, 7int, 1, 3int, 678693448int, 126int)) by(compute_only); good_step(2147483647int, 18int, 7int, 1, 3int, 678693448int, 126int);
    pr_11(); assert(step_ok(2147483647int, 126int, 11int, 1, 3int, 1763801231int, 1386int)) by(compute_only); good_step(2147483647int, 126int, 11int, 1, 3int, 1763801231int, 1386int);
    pr_31(); assert(step_ok(2147483647int, 1386int, 31int, 1, 2int, 693277993int, 42966int)) by(compute_only); good_step(2147483647int, 1386int, 31int, 1, 2int, 693277993int, 42966int);
    pr_151(); assert(step_ok(2147483647int, 42966int, 151int, 1, 3int, 2069584139int, 6487866int)) by(compute_only); good_step(2147483647int, 42966int, 151int, 1, 3int, 2069584139int, 6487866int);
    pr_331(); assert(step_ok(2147483647int, 6487866int, 331int, 1, 3int, 411595504int, 2147483646int)) by(compute_only); good_step(2147483647int, 6487866int, 331int, 1, 3int, 411595504int, 2147483646int);
    good_end(2147483647int);
}
proof fn pr_41() ensures is_prime(41int)
{
    good_one(41int);
    pr_2(); assert(step_ok(41int, 1int, 2int, 3, 3int, 20int, 8int)) by(compute_only); good_step(41int, 1int, 2int, 3, 3int, 20int, 8int);
    pr_5(); assert(step_ok(41int, 8int, 5int, 1, 2int, 32int, 40int)) by(compute_only); good_step(41int, 8int, 5int, 1, 2int, 32int, 40int);
    good_end(41int);
}
proof fn pr_61() ensures is_prime(61int)
{
    good_one(61int);
    pr_2(); assert(step_ok(61int, 1int, 2int, 2, 2int, 30int, 4int)) by(compute_only); good_step(61int, 1int, 2int, 2, 2int, 30int, 4int);
    pr_3(); assert(step_ok(61int, 4int, 3int, 1, 2int, 4int, 12int)) by(compute_only); good_step(61int, 4int, 3int, 1, 2int, 4int, 12int);
    pr_5(); assert(step_ok(61int, 12int, 5int, 1, 2int, 23int, 60int)) by(compute_only); good_step(61int, 12int, 5int, 1, 2int, 23int, 60int);
    good_end(61int);
}
proof fn pr_1321() ensures is_prime(1321int)
{
    good_one(1321int);
    pr_2(); assert(step_ok(1321int, 1int, 2int, 3, 7int, 660int, 8int)) by(compute_only); good_step(1321int, 1int, 2int, 3, 7int, 660int, 8int);
    pr_3(); assert(step_ok(1321int, 8int, 3int, 1, 2int, 539int, 24int)) by(compute_only); good_step(1321int, 8int, 3int, 1, 2int, 539int, 24int);
    pr_5(); assert(step_ok(1321int, 24int, 5int, 1, 2int, 690int, 120int)) by(compute_only); good_step(1321int, 24int, 5int, 1, 2int, 690int, 120int);
    pr_11(); assert(step_ok(1321int, 120int, 11int, 1, 3int, 376int, 1320int)) by(compute_only); good_step(1321int, 120int, 11int, 1, 3int, 376int, 1320int);
    good_end(1321int);
}
proof fn prime_Mersenne61() ensures is_prime(modulus_Mersenne61())
{
    assert(modulus_Mersenne61() == 2305843009213693951int) by(compute_only);
    good_one(2305843009213693951int);
    pr_2(); assert(step_ok(2305843009213693951int, 1int, 2int, 1, 3int, 1152921504606846975int, 2int)) by(compute_only); good_step(2305843009213693951int, 1int, 2int, 1, 3int, 1152921504606846975int, 2int);
    pr_3(); assert(step_ok(2305843009213693951int, 2int, 3int, 2, 5int, 212086872990781878int, 18int)) by(compute_only); good_step(2305843009213693951int, 2int, 3int, 2, 5int, 212086872990781878int, 18int);
    pr_5(); assert(step_ok(2305843009213693951int, 18int, 5int, 2, 3int, 1487139318895294354int, 450int)) by(compute_only); good_step(2305843009213693951int, 18int, 5int, 2, 3int, 1487139318895294354int, 450int);
    pr_7(); assert(step_ok(2305843009213693951int, 450int, 7int, 1, 3int, 1816900818634230541int, 3150int)) by(compute_only); good_step(2305843009213693951int, 450int, 7int, 1, 3int, 1816900818634230541int, 3150int);
    pr_11(); assert(step_ok(2305843009213693951int, 3150int, 11int, 1, 3int, 188460807465984984int, 34650int)) by(compute_only); good_step(2305843009213693951int, 3150int, 11int, 1, 3int, 188460807465984984int, 34650int);
    pr_13(); assert(step_ok(2305843009213693951int, 34650int, 13int, 1, 3int, 443514988549772056int, 450450int)) by(compute_only); good_step(2305843009213693951int, 34650int, 13int, 1, 3int, 443514988549772056int, 450450int);
    pr_31(); assert(step_ok(2305843009213693951int, 450450int, 31int, 1, 3int, 42235654463646013int, 13963950int)) by(compute_only); good_step(2305843009213693951int, 450450int, 31int, 1, 3int, 42235654463646013int, 13963950int);
    pr_41(); assert(step_ok(2305843009213693951int, 13963950int, 41int, 1, 3int, 1451457279514327107int, 572521950int)) by(compute_only); good_step(2305843009213693951int, 13963950int, 41int, 1, 3int, 1451457279514327107int, 572521950int);
    pr_61(); assert(step_ok(2305843009213693951int, 572521950int, 61int, 1, 2int, 2232623763684192189int, 34923838950int)) by(compute_only); good_step(2305843009213693951int, 572521950int, 61int, 1, 2int, 2232623763684192189int, 34923838950int);
    pr_151(); assert(step_ok(2305843009213693951int, 34923838950int, 151int, 1, 3int, 1896004468068488480int, 5273499681450int)) by(compute_only); good_step(2305843009213693951int, 34923838950int, 151int, 1, 3int, 1896004468068488480int, 5273499681450int);
    pr_331(); assert(step_ok(2305843009213693951int, 5273499681450int, 331int, 1, 3int, 1881382712785867029int, 1745528394559950int)) by(compute_only); good_step(2305843009213693951int, 5273499681450int, 331int, 1, 3int, 1881382712785867029int, 1745528394559950int);
    pr_1321(); assert(step_ok(2305843009213693951int, 1745528394559950int, 1321int, 1, 3int, 828993518632009434int, 2305843009213693950int)) by(compute_only); good_step(2305843009213693951int, 1745528394559950int, 1321int, 1, 3int, 828993518632009434int, 2305843009213693950int);
    good_end(2305843009213693951int);
}
proof fn pr_23() ensures is_prime(23int)
{
    good_one(23int);
    pr_2(); assert(step_ok(23int, 1int, 2int, 1, 5int, 11int, 2int)) by(compute_only); good_step(23int, 1int, 2int, 1, 5int, 11int, 2int);
    pr_11(); assert(step_ok(23int, 2int, 11int, 1, 2int, 8int, 22int)) by(compute_only); good_step(23int, 2int, 11int, 1, 2int, 8int, 22int);
    good_end(23int);
}
proof fn pr_89() ensures is_prime(89int)
{
    good_one(89int);
    pr_2(); assert(step_ok(89int, 1int, 2int, 3, 3int, 44int, 8int)) by(compute_only); good_step(89int, 1int, 2int, 3, 3int, 44int, 8int);
    pr_11(); assert(step_ok(89int, 8int, 11int, 1, 2int, 37int, 88int)) by(compute_only); good_step(89int, 8int, 11int, 1, 2int, 37int, 88int);
    good_end(89int);
}
proof fn pr_353() ensures is_prime(353int)
{
    good_one(353int);
    pr_2(); assert(step_ok(353int, 1int, 2int, 5, 3int, 176int, 32int)) by(compute_only); good_step(353int, 1int, 2int, 5, 3int, 176int, 32int);
    pr_11(); assert(step_ok(353int, 32int, 11int, 1, 2int, 192int, 352int)) by(compute_only); good_step(353int, 32int, 11int, 1, 2int, 192int, 352int);
    good_end(353int);
}
proof fn pr_397() ensures is_prime(397int)
{
    good_one(397int);
    pr_2(); assert(step_ok(397int, 1int, 2int, 2, 2int, 198int, 4int)) by(compute_only); good_step(397int, 1int, 2int, 2, 2int, 198int, 4int);
    pr_3(); assert(step_ok(397int, 4int, 3int, 2, 3int, 385int, 36int)) by(compute_only); good_step(397int, 4int, 3int, 2, 3int, 385int, 36int);
    pr_11(); assert(step_ok(397int, 36int, 11int, 1, 2int, 136int, 396int)) by(compute_only); good_step(397int, 36int, 11int, 1, 2int, 136int, 396int);
    good_end(397int);
}
proof fn pr_683() ensures is_prime(683int)
{
    good_one(683int);
    pr_2(); assert(step_ok(683int, 1int, 2int, 1, 2int, 341int, 2int)) by(compute_only); good_step(683int, 1int, 2int, 1, 2int, 341int, 2int);
    pr_11(); assert(step_ok(683int, 2int, 11int, 1, 2int, 90int, 22int)) by(compute_only); good_step(683int, 2int, 11int, 1, 2int, 90int, 22int);
    pr_31(); assert(step_ok(683int, 22int, 31int, 1, 3int, 152int, 682int)) by(compute_only); good_step(683int, 22int, 31int, 1, 3int, 152int, 682int);
    good_end(683int);
}
proof fn pr_2113() ensures is_prime(2113int)
{
    good_one(2113int);
    pr_2(); assert(step_ok(2113int, 1int, 2int, 6, 5int, 1056int, 64int)) by(compute_only); good_step(2113int, 1int, 2int, 6, 5int, 1056int, 64int);
    pr_3(); assert(step_ok(2113int, 64int, 3int, 1, 3int, 1262int, 192int)) by(compute_only); good_step(2113int, 64int, 3int, 1, 3int, 1262int, 192int);
    pr_11(); assert(step_ok(2113int, 192int, 11int, 1, 2int, 2047int, 2112int)) by(compute_only); good_step(2113int, 192int, 11int, 1, 2int, 2047int, 2112int);
    good_end(2113int);
}
proof fn pr_239() ensures is_prime(239int)
{
    good_one(239int);
    pr_2(); assert(step_ok(239int, 1int, 2int, 1, 7int, 119int, 2int)) by(compute_only); good_step(239int, 1int, 2int, 1, 7int, 119int, 2int);
    pr_7(); assert(step_ok(239int, 2int, 7int, 1, 2int, 49int, 14int)) by(compute_only); good_step(239int, 2int, 7int, 1, 2int, 49int, 14int);
    pr_17(); assert(step_ok(239int, 14int, 17int, 1, 2int, 104int, 238int)) by(compute_only); good_step(239int, 14int, 17int, 1, 2int, 104int, 238int);
    good_end(239int);
}
proof fn pr_1913() ensures is_prime(1913int)
{
    good_one(1913int);
    pr_2(); assert(step_ok(1913int, 1int, 2int, 3, 3int, 956int, 8int)) by(compute_only); good_step(1913int, 1int, 2int, 3, 3int, 956int, 8int);
    pr_239(); assert(step_ok(1913int, 8int, 239int, 1, 2int, 1898int, 1912int)) by(compute_only); good_step(1913int, 8int, 239int, 1, 2int, 1898int, 1912int);
    good_end(1913int);
}
proof fn pr_29() ensures is_prime(29int)
{
    good_one(29int);
    pr_2(); assert(step_ok(29int, 1int, 2int, 2, 2int, 14int, 4int)) by(compute_only); good_step(29int, 1int, 2int, 2, 2int, 14int, 4int);
    pr_7(); assert(step_ok(29int, 4int, 7int, 1, 2int, 2int, 28int)) by(compute_only); good_step(29int, 4int, 7int, 1, 2int, 2int, 28int);
    good_end(29int);
}
proof fn pr_1451() ensures is_prime(1451int)
{
    good_one(1451int);
    pr_2(); assert(step_ok(1451int, 1int, 2int, 1, 2int, 725int, 2int)) by(compute_only); good_step(1451int, 1int, 2int, 1, 2int, 725int, 2int);
    pr_5(); assert(step_ok(1451int, 2int, 5int, 2, 2int, 100int, 50int)) by(compute_only); good_step(1451int, 2int, 5int, 2, 2int, 100int, 50int);
    pr_29(); assert(step_ok(1451int, 50int, 29int, 1, 2int, 1321int, 1450int)) by(compute_only); good_step(1451int, 50int, 29int, 1, 2int, 1321int, 1450int);
    good_end(1451int);
}
proof fn pr_8707() ensures is_prime(8707int)
{
    good_one(8707int);
    pr_2(); assert(step_ok(8707int, 1int, 2int, 1, 2int, 4353int, 2int)) by(compute_only); good_step(8707int, 1int, 2int, 1, 2int, 4353int, 2int);
    pr_3(); assert(step_ok(8707int, 2int, 3int, 1, 5int, 804int, 6int)) by(compute_only); good_step(8707int, 2int, 3int, 1, 5int, 804int, 6int);
    pr_1451(); assert(step_ok(8707int, 6int, 1451int, 1, 2int, 4008int, 8706int)) by(compute_only); good_step(8707int, 6int, 1451int, 1, 2int, 4008int, 8706int);
    good_end(8707int);
}
proof fn pr_2931542417() ensures is_prime(2931542417int)
{
    good_one(2931542417int);
    pr_2(); assert(step_ok(2931542417int, 1int, 2int, 4, 3int, 1465771208int, 16int)) by(compute_only); good_step(2931542417int, 1int, 2int, 4, 3int, 1465771208int, 16int);
    pr_11(); assert(step_ok(2931542417int, 16int, 11int, 1, 2int, 2678625031int, 176int)) by(compute_only); good_step(2931542417int, 16int, 11int, 1, 2int, 2678625031int, 176int);
    pr_1913(); assert(step_ok(2931542417int, 176int, 1913int, 1, 3int, 2576703234int, 336688int)) by(compute_only); good_step(2931542417int, 176int, 1913int, 1, 3int, 2576703234int, 336688int);
    pr_8707(); assert(step_ok(2931542417int, 336688int, 8707int, 1, 3int, 1614032468int, 2931542416int)) by(compute_only); good_step(2931542417int, 336688int, 8707int, 1, 3int, 1614032468int, 2931542416int);
    good_end(2931542417int);
}
proof fn prime_Mersenne89() ensures is_prime(modulus_Mersenne89())
{
    assert(modulus_Mersenne89() == 618970019642690137449562111int) by(compute_only);
    good_one(618970019642690137449562111int);
    pr_2(); assert(step_ok(618970019642690137449562111int, 1int, 2int, 1, 3int, 309485009821345068724781055int, 2int)) by(compute_only); good_step(618970019642690137449562111int, 1int, 2int, 1, 3int, 309485009821345068724781055int, 2int);
    pr_3(); assert(step_ok(618970019642690137449562111int, 2int, 3int, 1, 3int, 506765450104870728657326410int, 6int)) by(compute_only); good_step(618970019642690137449562111int, 2int, 3int, 1, 3int, 506765450104870728657326410int, 6int);
    pr_5(); assert(step_ok(618970019642690137449562111int, 6int, 5int, 1, 3int, 196335676983865041949097171int, 30int)) by(compute_only); good_step(618970019642690137449562111int, 6int, 5int, 1, 3int, 196335676983865041949097171int, 30int);
    pr_17(); assert(step_ok(618970019642690137449562111int, 30int, 17int, 1, 3int, 570814061337708581128981630int, 510int)) by(compute_only); good_step(618970019642690137449562111int, 30int, 17int, 1, 3int, 570814061337708581128981630int, 510int);
    pr_23(); assert(step_ok(618970019642690137449562111int, 510int, 23int, 1, 3int, 557984695038896280754479956int, 11730int)) by(compute_only); good_step(618970019642690137449562111int, 510int, 23int, 1, 3int, 557984695038896280754479956int, 11730int);
    pr_89(); assert(step_ok(618970019642690137449562111int, 11730int, 89int, 1, 2int, 419297395479565919727737557int, 1043970int)) by(compute_only); good_step(618970019642690137449562111int, 11730int, 89int, 1, 2int, 419297395479565919727737557int, 1043970int);
    pr_353(); assert(step_ok(618970019642690137449562111int, 1043970int, 353int, 1, 3int, 58661271094879545045137225int, 368521410int)) by(compute_only); good_step(618970019642690137449562111int, 1043970int, 353int, 1, 3int, 58661271094879545045137225int, 368521410int);
    pr_397(); assert(step_ok(618970019642690137449562111int, 368521410int, 397int, 1, 3int, 9839915298784167385888915int, 146302999770int)) by(compute_only); good_step(618970019642690137449562111int, 368521410int, 397int, 1, 3int, 9839915298784167385888915int, 146302999770int);
    pr_683(); assert(step_ok(618970019642690137449562111int, 146302999770int, 683int, 1, 3int, 419069911464612394515163682int, 99924948842910int)) by(compute_only); good_step(618970019642690137449562111int, 146302999770int, 683int, 1, 3int, 419069911464612394515163682int, 99924948842910int);
    pr_2113(); assert(step_ok(618970019642690137449562111int, 99924948842910int, 2113int, 1, 3int, 340331165276245160078493683int, 211141416905068830int)) by(compute_only); good_step(618970019642690137449562111int, 99924948842910int, 2113int, 1, 3int, 340331165276245160078493683int, 211141416905068830int);
    pr_2931542417(); assert(step_ok(618970019642690137449562111int, 211141416905068830int, 2931542417int, 1, 3int, 472273989339913401555882548int, 618970019642690137449562110int)) by(compute_only); good_step(618970019642690137449562111int, 211141416905068830int, 2931542417int, 1, 3int, 472273989339913401555882548int, 618970019642690137449562110int);
    good_end(618970019642690137449562111int);
}
proof fn pr_53() ensures is_prime(53int)
{
    good_one(53int);
    pr_2(); assert(step_ok(53int, 1int, 2int, 2, 2int, 26int, 4int)) by(compute_only); good_step(53int, 1int, 2int, 2, 2int, 26int, 4int);
    pr_13(); assert(step_ok(53int, 4int, 13int, 1, 2int, 46int, 52int)) by(compute_only); good_step(53int, 4int, 13int, 1, 2int, 46int, 52int);
    good_end(53int);
}
proof fn pr_107() ensures is_prime(107int)
{
    good_one(107int);
    pr_2(); assert(step_ok(107int, 1int, 2int, 1, 2int, 53int, 2int)) by(compute_only); good_step(107int, 1int, 2int, 1, 2int, 53int, 2int);
    pr_53(); assert(step_ok(107int, 2int, 53int, 1, 2int, 36int, 106int)) by(compute_only); good_step(107int, 2int, 53int, 1, 2int, 36int, 106int);
    good_end(107int);
}
proof fn pr_6361() ensures is_prime(6361int)
{
    good_one(6361int);
    pr_2(); assert(step_ok(6361int, 1int, 2int, 3, 7int, 3180int, 8int)) by(compute_only); good_step(6361int, 1int, 2int, 3, 7int, 3180int, 8int);
    pr_3(); assert(step_ok(6361int, 8int, 3int, 1, 3int, 619int, 24int)) by(compute_only); good_step(6361int, 8int, 3int, 1, 3int, 619int, 24int);
    pr_5(); assert(step_ok(6361int, 24int, 5int, 1, 3int, 5449int, 120int)) by(compute_only); good_step(6361int, 24int, 5int, 1, 3int, 5449int, 120int);
    pr_53(); assert(step_ok(6361int, 120int, 53int, 1, 2int, 6222int, 6360int)) by(compute_only); good_step(6361int, 120int, 53int, 1, 2int, 6222int, 6360int);
    good_end(6361int);
}
proof fn pr_131() ensures is_prime(131int)
{
    good_one(131int);
    pr_2(); assert(step_ok(131int, 1int, 2int, 1, 2int, 65int, 2int)) by(compute_only); good_step(131int, 1int, 2int, 1, 2int, 65int, 2int);
    pr_5(); assert(step_ok(131int, 2int, 5int, 1, 2int, 63int, 10int)) by(compute_only); good_step(131int, 2int, 5int, 1, 2int, 63int, 10int);
    pr_13(); assert(step_ok(131int, 10int, 13int, 1, 2int, 110int, 130int)) by(compute_only); good_step(131int, 10int, 13int, 1, 2int, 110int, 130int);
    good_end(131int);
}
proof fn pr_69431() ensures is_prime(69431int)
{
    good_one(69431int);
    pr_2(); assert(step_ok(69431int, 1int, 2int, 1, 13int, 34715int, 2int)) by(compute_only); good_step(69431int, 1int, 2int, 1, 13int, 34715int, 2int);
    pr_5(); assert(step_ok(69431int, 2int, 5int, 1, 3int, 1285int, 10int)) by(compute_only); good_step(69431int, 2int, 5int, 1, 3int, 1285int, 10int);
    pr_53(); assert(step_ok(69431int, 10int, 53int, 1, 2int, 54767int, 530int)) by(compute_only); good_step(69431int, 10int, 53int, 1, 2int, 54767int, 530int);
    pr_131(); assert(step_ok(69431int, 530int, 131int, 1, 3int, 39294int, 69430int)) by(compute_only); good_step(69431int, 530int, 131int, 1, 3int, 39294int, 69430int);
    good_end(69431int);
}
proof fn pr_37() ensures is_prime(37int)
{
    good_one(37int);
    pr_2(); assert(step_ok(37int, 1int, 2int, 2, 2int, 18int, 4int)) by(compute_only); good_step(37int, 1int, 2int, 2, 2int, 18int, 4int);
    pr_3(); assert(step_ok(37int, 4int, 3int, 2, 2int, 3int, 36int)) by(compute_only); good_step(37int, 4int, 3int, 2, 2int, 3int, 36int);
    good_end(37int);
}
proof fn pr_20394401() ensures is_prime(20394401int)
{
    good_one(20394401int);
    pr_2(); assert(step_ok(20394401int, 1int, 2int, 5, 3int, 10197200int, 32int)) by(compute_only); good_step(20394401int, 1int, 2int, 5, 3int, 10197200int, 32int);
    pr_5(); assert(step_ok(20394401int, 32int, 5int, 2, 3int, 2608273int, 800int)) by(compute_only); good_step(20394401int, 32int, 5int, 2, 3int, 2608273int, 800int);
    pr_13(); assert(step_ok(20394401int, 800int, 13int, 1, 3int, 10769713int, 10400int)) by(compute_only); good_step(20394401int, 800int, 13int, 1, 3int, 10769713int, 10400int);
    pr_37(); assert(step_ok(20394401int, 10400int, 37int, 1, 3int, 12003559int, 384800int)) by(compute_only); good_step(20394401int, 10400int, 37int, 1, 3int, 12003559int, 384800int);
    pr_53(); assert(step_ok(20394401int, 384800int, 53int, 1, 2int, 18865154int, 20394400int)) by(compute_only); good_step(20394401int, 384800int, 53int, 1, 2int, 18865154int, 20394400int);
    good_end(20394401int);
}
proof fn pr_137() ensures is_prime(137int)
{
    good_one(137int);
    pr_2(); assert(step_ok(137int, 1int, 2int, 3, 3int, 68int, 8int)) by(compute_only); good_step(137int, 1int, 2int, 3, 3int, 68int, 8int);
    pr_17(); assert(step_ok(137int, 8int, 17int, 1, 2int, 36int, 136int)) by(compute_only); good_step(137int, 8int, 17int, 1, 2int, 36int, 136int);
    good_end(137int);
}
proof fn pr_1097() ensures is_prime(1097int)
{
    good_one(1097int);
    pr_2(); assert(step_ok(1097int, 1int, 2int, 3, 3int, 548int, 8int)) by(compute_only); good_step(1097int, 1int, 2int, 3, 3int, 548int, 8int);
    pr_137(); assert(step_ok(1097int, 8int, 137int, 1, 2int, 869int, 1096int)) by(compute_only); good_step(1097int, 8int, 137int, 1, 2int, 869int, 1096int);
    good_end(1097int);
}
proof fn pr_67254877() ensures is_prime(67254877int)
{
    good_one(67254877int);
    pr_2(); assert(step_ok(67254877int, 1int, 2int, 2, 2int, 33627438int, 4int)) by(compute_only); good_step(67254877int, 1int, 2int, 2, 2int, 33627438int, 4int);
    pr_3(); assert(step_ok(67254877int, 4int, 3int, 2, 2int, 34108719int, 36int)) by(compute_only); good_step(67254877int, 4int, 3int, 2, 2int, 34108719int, 36int);
    pr_13(); assert(step_ok(67254877int, 36int, 13int, 1, 2int, 60429515int, 468int)) by(compute_only); good_step(67254877int, 36int, 13int, 1, 2int, 60429515int, 468int);
    pr_131(); assert(step_ok(67254877int, 468int, 131int, 1, 2int, 53251911int, 61308int)) by(compute_only); good_step(67254877int, 468int, 131int, 1, 2int, 53251911int, 61308int);
    pr_1097(); assert(step_ok(67254877int, 61308int, 1097int, 1, 2int, 9353157int, 67254876int)) by(compute_only); good_step(67254877int, 61308int, 1097int, 1, 2int, 9353157int, 67254876int);
    good_end(67254877int);
}
proof fn pr_28059810762433() ensures is_prime(28059810762433int)
{
    good_one(28059810762433int);
    pr_2(); assert(step_ok(28059810762433int, 1int, 2int, 6, 5int, 14029905381216int, 64int)) by(compute_only); good_step(28059810762433int, 1int, 2int, 6, 5int, 14029905381216int, 64int);
    pr_3(); assert(step_ok(28059810762433int, 64int, 3int, 1, 3int, 27360737855354int, 192int)) by(compute_only); good_step(28059810762433int, 64int, 3int, 1, 3int, 27360737855354int, 192int);
    pr_41(); assert(step_ok(28059810762433int, 192int, 41int, 1, 3int, 22449539292750int, 7872int)) by(compute_only); good_step(28059810762433int, 192int, 41int, 1, 3int, 22449539292750int, 7872int);
    pr_53(); assert(step_ok(28059810762433int, 7872int, 53int, 1, 2int, 25489024693586int, 417216int)) by(compute_only); good_step(28059810762433int, 7872int, 53int, 1, 2int, 25489024693586int, 417216int);
    pr_67254877(); assert(step_ok(28059810762433int, 417216int, 67254877int, 1, 3int, 10087695272953int, 28059810762432int)) by(compute_only); good_step(28059810762433int, 417216int, 67254877int, 1, 3int, 10087695272953int, 28059810762432int);
    good_end(28059810762433int);
}
proof fn prime_Mersenne107() ensures is_prime(modulus_Mersenne107())
{
    assert(modulus_Mersenne107() == 162259276829213363391578010288127int) by(compute_only);
    good_one(162259276829213363391578010288127int);
    pr_2(); assert(step_ok(162259276829213363391578010288127int, 1int, 2int, 1, 3int, 81129638414606681695789005144063int, 2int)) by(compute_only); good_step(162259276829213363391578010288127int, 1int, 2int, 1, 3int, 81129638414606681695789005144063int, 2int);
    pr_3(); assert(step_ok(162259276829213363391578010288127int, 2int, 3int, 1, 3int, 38848977340757240324616185415530int, 6int)) by(compute_only); good_step(162259276829213363391578010288127int, 2int, 3int, 1, 3int, 38848977340757240324616185415530int, 6int);
    pr_107(); assert(step_ok(162259276829213363391578010288127int, 6int, 107int, 1, 2int, 115899483104030734528547735170485int, 642int)) by(compute_only); good_step(162259276829213363391578010288127int, 6int, 107int, 1, 2int, 115899483104030734528547735170485int, 642int);
    pr_6361(); assert(step_ok(162259276829213363391578010288127int, 642int, 6361int, 1, 3int, 59096345354706892549108299872292int, 4083762int)) by(compute_only); good_step(162259276829213363391578010288127int, 642int, 6361int, 1, 3int, 59096345354706892549108299872292int, 4083762int);
    pr_69431(); assert(step_ok(162259276829213363391578010288127int, 4083762int, 69431int, 1, 3int, 7093038358935768171538370689999int, 283539679422int)) by(compute_only); good_step(162259276829213363391578010288127int, 4083762int, 69431int, 1, 3int, 7093038358935768171538370689999int, 283539679422int);
    pr_20394401(); assert(step_ok(162259276829213363391578010288127int, 283539679422int, 20394401int, 1, 3int, 98827716955209305077033156730418int, 5782621921543716222int)) by(compute_only); good_step(162259276829213363391578010288127int, 283539679422int, 20394401int, 1, 3int, 98827716955209305077033156730418int, 5782621921543716222int);
    pr_28059810762433(); assert(step_ok(162259276829213363391578010288127int, 5782621921543716222int, 28059810762433int, 1, 3int, 62620686813553212765944648930189int, 162259276829213363391578010288126int)) by(compute_only); good_step(162259276829213363391578010288127int, 5782621921543716222int, 28059810762433int, 1, 3int, 62620686813553212765944648930189int, 162259276829213363391578010288126int);
    good_end(162259276829213363391578010288127int);
}
proof fn pr_43() ensures is_prime(43int)
{
    good_one(43int);
    pr_2(); assert(step_ok(43int, 1int, 2int, 1, 2int, 21int, 2int)) by(compute_only); good_step(43int, 1int, 2int, 1, 2int, 21int, 2int);
    pr_3(); assert(step_ok(43int, 2int, 3int, 1, 3int, 16int, 6int)) by(compute_only); good_step(43int, 2int, 3int, 1, 3int, 16int, 6int);
    pr_7(); assert(step_ok(43int, 6int, 7int, 1, 2int, 28int, 42int)) by(compute_only); good_step(43int, 6int, 7int, 1, 2int, 28int, 42int);
    good_end(43int);
}
proof fn pr_127() ensures is_prime(127int)
{
    good_one(127int);
    pr_2(); assert(step_ok(127int, 1int, 2int, 1, 3int, 63int, 2int)) by(compute_only); good_step(127int, 1int, 2int, 1, 3int, 63int, 2int);
    pr_3(); assert(step_ok(127int, 2int, 3int, 2, 3int, 6int, 18int)) by(compute_only); good_step(127int, 2int, 3int, 2, 3int, 6int, 18int);
    pr_7(); assert(step_ok(127int, 18int, 7int, 1, 2int, 17int, 126int)) by(compute_only); good_step(127int, 18int, 7int, 1, 2int, 17int, 126int);
    good_end(127int);
}
proof fn pr_337() ensures is_prime(337int)
{
    good_one(337int);
    pr_2(); assert(step_ok(337int, 1int, 2int, 4, 5int, 168int, 16int)) by(compute_only); good_step(337int, 1int, 2int, 4, 5int, 168int, 16int);
    pr_3(); assert(step_ok(337int, 16int, 3int, 1, 2int, 69int, 48int)) by(compute_only); good_step(337int, 16int, 3int, 1, 2int, 69int, 48int);
    pr_7(); assert(step_ok(337int, 48int, 7int, 1, 2int, 107int, 336int)) by(compute_only); good_step(337int, 48int, 7int, 1, 2int, 107int, 336int);
    good_end(337int);
}
proof fn pr_5419() ensures is_prime(5419int)
{
    good_one(5419int);
    pr_2(); assert(step_ok(5419int, 1int, 2int, 1, 2int, 2709int, 2int)) by(compute_only); good_step(5419int, 1int, 2int, 1, 2int, 2709int, 2int);
    pr_3(); assert(step_ok(5419int, 2int, 3int, 2, 3int, 42int, 18int)) by(compute_only); good_step(5419int, 2int, 3int, 2, 3int, 42int, 18int);
    pr_7(); assert(step_ok(5419int, 18int, 7int, 1, 2int, 4816int, 126int)) by(compute_only); good_step(5419int, 18int, 7int, 1, 2int, 4816int, 126int);
    pr_43(); assert(step_ok(5419int, 126int, 43int, 1, 3int, 4270int, 5418int)) by(compute_only); good_step(5419int, 126int, 43int, 1, 3int, 4270int, 5418int);
    good_end(5419int);
}
proof fn pr_92737() ensures is_prime(92737int)
{
    good_one(92737int);
    pr_2(); assert(step_ok(92737int, 1int, 2int, 6, 5int, 46368int, 64int)) by(compute_only); good_step(92737int, 1int, 2int, 6, 5int, 46368int, 64int);
    pr_3(); assert(step_ok(92737int, 64int, 3int, 2, 2int, 18979int, 576int)) by(compute_only); good_step(92737int, 64int, 3int, 2, 2int, 18979int, 576int);
    pr_7(); assert(step_ok(92737int, 576int, 7int, 1, 2int, 20437int, 4032int)) by(compute_only); good_step(92737int, 576int, 7int, 1, 2int, 20437int, 4032int);
    pr_23(); assert(step_ok(92737int, 4032int, 23int, 1, 3int, 25240int, 92736int)) by(compute_only); good_step(92737int, 4032int, 23int, 1, 3int, 25240int, 92736int);
    good_end(92737int);
}
proof fn pr_1289() ensures is_prime(1289int)
{
    good_one(1289int);
    pr_2(); assert(step_ok(1289int, 1int, 2int, 3, 3int, 644int, 8int)) by(compute_only); good_step(1289int, 1int, 2int, 3, 3int, 644int, 8int);
    pr_7(); assert(step_ok(1289int, 8int, 7int, 1, 2int, 874int, 56int)) by(compute_only); good_step(1289int, 8int, 7int, 1, 2int, 874int, 56int);
    pr_23(); assert(step_ok(1289int, 56int, 23int, 1, 2int, 419int, 1288int)) by(compute_only); good_step(1289int, 56int, 23int, 1, 2int, 419int, 1288int);
    good_end(1289int);
}
proof fn pr_649657() ensures is_prime(649657int)
{
    good_one(649657int);
    pr_2(); assert(step_ok(649657int, 1int, 2int, 3, 5int, 324828int, 8int)) by(compute_only); good_step(649657int, 1int, 2int, 3, 5int, 324828int, 8int);
    pr_3(); assert(step_ok(649657int, 8int, 3int, 2, 2int, 167158int, 72int)) by(compute_only); good_step(649657int, 8int, 3int, 2, 2int, 167158int, 72int);
    pr_7(); assert(step_ok(649657int, 72int, 7int, 1, 2int, 114421int, 504int)) by(compute_only); good_step(649657int, 72int, 7int, 1, 2int, 114421int, 504int);
    pr_1289(); assert(step_ok(649657int, 504int, 1289int, 1, 3int, 288063int, 649656int)) by(compute_only); good_step(649657int, 504int, 1289int, 1, 3int, 288063int, 649656int);
    good_end(649657int);
}
proof fn pr_174763() ensures is_prime(174763int)
{
    good_one(174763int);
    pr_2(); assert(step_ok(174763int, 1int, 2int, 1, 2int, 87381int, 2int)) by(compute_only); good_step(174763int, 1int, 2int, 1, 2int, 87381int, 2int);
    pr_3(); assert(step_ok(174763int, 2int, 3int, 2, 11int, 27894int, 18int)) by(compute_only); good_step(174763int, 2int, 3int, 2, 11int, 27894int, 18int);
    pr_7(); assert(step_ok(174763int, 18int, 7int, 1, 3int, 54890int, 126int)) by(compute_only); good_step(174763int, 18int, 7int, 1, 3int, 54890int, 126int);
    pr_19(); assert(step_ok(174763int, 126int, 19int, 1, 2int, 116509int, 2394int)) by(compute_only); good_step(174763int, 126int, 19int, 1, 2int, 116509int, 2394int);
    pr_73(); assert(step_ok(174763int, 2394int, 73int, 1, 3int, 30736int, 174762int)) by(compute_only); good_step(174763int, 2394int, 73int, 1, 3int, 30736int, 174762int);
    good_end(174763int);
}
proof fn pr_699053() ensures is_prime(699053int)
{
    good_one(699053int);
    pr_2(); assert(step_ok(699053int, 1int, 2int, 2, 2int, 349526int, 4int)) by(compute_only); good_step(699053int, 1int, 2int, 2, 2int, 349526int, 4int);
    pr_174763(); assert(step_ok(699053int, 4int, 174763int, 1, 2int, 605846int, 699052int)) by(compute_only); good_step(699053int, 4int, 174763int, 1, 2int, 605846int, 699052int);
    good_end(699053int);
}
proof fn pr_77158673929() ensures is_prime(77158673929int)
{
    good_one(77158673929int);
    pr_2(); assert(step_ok(77158673929int, 1int, 2int, 3, 11int, 38579336964int, 8int)) by(compute_only); good_step(77158673929int, 1int, 2int, 3, 11int, 38579336964int, 8int);
    pr_3(); assert(step_ok(77158673929int, 8int, 3int, 3, 5int, 77157974878int, 216int)) by(compute_only); good_step(77158673929int, 8int, 3int, 3, 5int, 77157974878int, 216int);
    pr_7(); assert(step_ok(77158673929int, 216int, 7int, 1, 2int, 28260022419int, 1512int)) by(compute_only); good_step(77158673929int, 216int, 7int, 1, 2int, 28260022419int, 1512int);
    pr_73(); assert(step_ok(77158673929int, 1512int, 73int, 1, 3int, 26098623918int, 110376int)) by(compute_only); good_step(77158673929int, 1512int, 73int, 1, 3int, 26098623918int, 110376int);
    pr_699053(); assert(step_ok(77158673929int, 110376int, 699053int, 1, 3int, 303426239int, 77158673928int)) by(compute_only); good_step(77158673929int, 110376int, 699053int, 1, 3int, 303426239int, 77158673928int);
    good_end(77158673929int);
}
proof fn prime_Mersenne127() ensures is_prime(modulus_Mersenne127())
{
    assert(modulus_Mersenne127() == 170141183460469231731687303715884105727int) by(compute_only);
    good_one(170141183460469231731687303715884105727int);
    pr_2(); assert(step_ok(170141183460469231731687303715884105727int, 1int, 2int, 1, 3int, 85070591730234615865843651857942052863int, 2int)) by(compute_only); good_step(170141183460469231731687303715884105727int, 1int, 2int, 1, 3int, 85070591730234615865843651857942052863int, 2int);
    pr_3(); assert(step_ok(170141183460469231731687303715884105727int, 2int, 3int, 3, 5int, 154897087905336685233606022844524623874int, 54int)) by(compute_only); good_step(170141183460469231731687303715884105727int, 2int, 3int, 3, 5int, 154897087905336685233606022844524623874int, 54int);
    pr_7(); assert(step_ok(170141183460469231731687303715884105727int, 54int, 7int, 2, 3int, 79532857527126638334136336013138341679int, 2646int)) by(compute_only); good_step(170141183460469231731687303715884105727int, 54int, 7int, 2, 3int, 79532857527126638334136336013138341679int, 2646int);
    pr_19(); assert(step_ok(170141183460469231731687303715884105727int, 2646int, 19int, 1, 3int, 7594026449118008893835116920030617466int, 50274int)) by(compute_only); good_step(170141183460469231731687303715884105727int, 2646int, 19int, 1, 3int, 7594026449118008893835116920030617466int, 50274int);
    pr_43(); assert(step_ok(170141183460469231731687303715884105727int, 50274int, 43int, 1, 3int, 116331973610815140834159721087321747583int, 2161782int)) by(compute_only); good_step(170141183460469231731687303715884105727int, 50274int, 43int, 1, 3int, 116331973610815140834159721087321747583int, 2161782int);
    pr_73(); assert(step_ok(170141183460469231731687303715884105727int, 2161782int, 73int, 1, 3int, 31442730806400581985956202112396974569int, 157810086int)) by(compute_only); good_step(170141183460469231731687303715884105727int, 2161782int, 73int, 1, 3int, 31442730806400581985956202112396974569int, 157810086int);
    pr_127(); assert(step_ok(170141183460469231731687303715884105727int, 157810086int, 127int, 1, 2int, 56713295127926233018902483330508434089int, 20041880922int)) by(compute_only); good_step(170141183460469231731687303715884105727int, 157810086int, 127int, 1, 2int, 56713295127926233018902483330508434089int, 20041880922int);
    pr_337(); assert(step_ok(170141183460469231731687303715884105727int, 20041880922int, 337int, 1, 3int, 110103390783158745583792917372794424523int, 6754113870714int)) by(compute_only); good_step(170141183460469231731687303715884105727int, 20041880922int, 337int, 1, 3int, 110103390783158745583792917372794424523int, 6754113870714int);
    pr_5419(); assert(step_ok(170141183460469231731687303715884105727int, 6754113870714int, 5419int, 1, 3int, 98952394820600442919124564921781805327int, 36600543065399166int)) by(compute_only); good_step(170141183460469231731687303715884105727int, 6754113870714int, 5419int, 1, 3int, 98952394820600442919124564921781805327int, 36600543065399166int);
    pr_92737(); assert(step_ok(170141183460469231731687303715884105727int, 36600543065399166int, 92737int, 1, 3int, 141899323343967763829894105985566179829int, 3394224562255922457342int)) by(compute_only); good_step(170141183460469231731687303715884105727int, 36600543065399166int, 92737int, 1, 3int, 141899323343967763829894105985566179829int, 3394224562255922457342int);
    pr_649657(); assert(step_ok(170141183460469231731687303715884105727int, 3394224562255922457342int, 649657int, 1, 3int, 58521024311718766171606481931475363244int, 2205081746441495815869431694int)) by(compute_only); good_step(170141183460469231731687303715884105727int, 3394224562255922457342int, 649657int, 1, 3int, 58521024311718766171606481931475363244int, 2205081746441495815869431694int);
    pr_77158673929(); assert(step_ok(170141183460469231731687303715884105727int, 2205081746441495815869431694int, 77158673929int, 1, 3int, 46923548802193521005161092283058279922int, 170141183460469231731687303715884105726int)) by(compute_only); good_step(170141183460469231731687303715884105727int, 2205081746441495815869431694int, 77158673929int, 1, 3int, 46923548802193521005161092283058279922int, 170141183460469231731687303715884105726int);
    good_end(170141183460469231731687303715884105727int);
}
} fn main() {}
