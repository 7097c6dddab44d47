/* Taylor coefficients of 1/Gamma(1+z), generated by gen_coef.py */
#define NRG 45
static const _Float128 RG[NRG] = {
  1.0f128,
  5.77215664901532860606512090082402431042159336e-1f128,
  -6.5587807152025388107701951514539048127976638e-1f128,
  -4.20026350340952355290039348754298187113945004e-2f128,
  1.66538611382291489501700795102105235717781502e-1f128,
  -4.21977345555443367482083012891873913016526842e-2f128,
  -9.62197152787697356211492167234819897536294225e-3f128,
  7.21894324666309954239501034044657270990480088e-3f128,
  -1.1651675918590651121139710840183886668093338e-3f128,
  -2.15241674114950972815729963053647806478241923e-4f128,
  1.280502823881161861531986263281643233948921e-4f128,
  -2.01348547807882386556893914210218183822948333e-5f128,
  -1.25049348214267065734535947383309224232265562e-6f128,
  1.13302723198169588237412962033074494332400484e-6f128,
  -2.05633841697760710345015413002057283651257903e-7f128,
  6.11609510448141581786249868285534286727586572e-9f128,
  5.00200764446922293005566504805999130304461274e-9f128,
  -1.1812745704870201445881265654365055777387595e-9f128,
  1.04342671169110051049154033231225019140070982e-10f128,
  7.78226343990507125404993731136077722606808618e-12f128,
  -3.69680561864220570818781587808576623657096345e-12f128,
  5.10037028745447597901548132286323180272688607e-13f128,
  -2.05832605356650678322242954485523741974609108e-14f128,
  -5.34812253942301798237001731872793994898971548e-15f128,
  1.22677862823826079015889384662242242816545575e-15f128,
  -1.18125930169745876951376458684229783121155729e-16f128,
  1.18669225475160033257977724292867407108849408e-18f128,
  1.41238065531803178155580394756670903708635075e-18f128,
  -2.29874568443537020659247858063369926028450593e-19f128,
  1.71440632192733743338396337026725706681265606e-20f128,
  1.33735173049369311486478139512226802287505947e-22f128,
  -2.05423355176667278932502535135573379668203794e-22f128,
  2.7360300486079998448315099043309820148653117e-23f128,
  -1.73235644591051663905742845156477979906974911e-24f128,
  -2.36061902449928728734345073542753100792641355e-26f128,
  1.86498294171729443071841316187866689894586843e-26f128,
  -2.2180956242071972043997169136268603797317795e-27f128,
  1.29778197494799366882441448633059416561949986e-28f128,
  1.18069747496652840622274541550997151855968464e-30f128,
  -1.1245843492770880902936546742614395121194118e-30f128,
  1.27708517514086620399020667775112464774877207e-31f128,
  -7.39145116961514082346128933010855282371056899e-33f128,
  1.1347502575542157609541652594693063930086122e-35f128,
  4.63913464105872202994480490795222846305796868e-35f128,
  -5.34733681843919887507741819670989332090488591e-36f128,
};
